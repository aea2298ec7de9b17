----------------------------- MODULE ScalingTrace -----------------------------
(***************************************************************************)
(* Recorded histories of a scaling object.  The state is what was given    *)
(* and the scaling that follows from the calls; after each call the object *)
(* has to show exactly their images.                                       *)
(***************************************************************************)
EXTENDS Trace, Scaling
VARIABLES l, st
\* o, n, b, a are sequences with the data that were given last, if any
Zero(k) == [i \in 1 .. k |-> "0"]
Str(v) == [i \in 1 .. Len(v) |-> RStr(v[i])]
Ones(k) == [i \in 1 .. k |-> R(1)]
DimOf(s) == Len(s.X[1])
NewX(s, shift, scale) ==
    LET sx == IF ~IsNone(shift) THEN shift ELSE IF s.ux THEN s.X[s.ib] ELSE Zero(DimOf(s))
        v  == IF IsNone(scale) THEN Ones(DimOf(s)) ELSE RSeq(scale)
    IN  [s EXCEPT !.sx = Str(sx), !.cx = Str(RSeq(XScale(s.X, sx, s.xm, s.ds, v)))]
P(s) == [sx |-> s.sx, cx |-> s.cx]
ObjScale1(s) == s.o[1].c
After(e) ==
    CASE e.ev = "New" -> NewX([X |-> e.X, ib |-> e.ib, ux |-> e.ux, xm |-> e.xm, ds |-> e.ds, sx |-> <<>>, cx |-> <<>>, o |-> <<>>, n |-> <<>>, b |-> <<>>, a |-> <<>>], "none", "none")
      [] e.ev = "X" -> NewX(st, e.shift, e.scale)
      [] e.ev = "Obj" -> [st EXCEPT !.o = <<[d |-> e.d, s |-> IF e.use THEN RStr(e.d.f[st.ib]) ELSE "0", c |-> RStr(FScale(e.d.f, e.m))]>>]
      [] e.ev = "ObjF" -> [st EXCEPT !.o[1].s = IF IsNone(e.shift) THEN @ ELSE e.shift, !.o[1].c = IF IsNone(e.scale) THEN @ ELSE e.scale]
      [] e.ev = "Nlc" -> [st EXCEPT !.n = <<[d |-> e.d, s |-> IF e.use THEN Str(e.d.f[st.ib]) ELSE Zero(Len(e.d.f[1])),
                                             c |-> IF Len(st.X) = 1 \/ e.m = "none" THEN "1" ELSE st.o[1].c]>>]
      [] e.ev = "NlcF" -> [st EXCEPT !.n[1].s = IF IsNone(e.shift) THEN @ ELSE e.shift, !.n[1].c = IF IsNone(e.scale) THEN @ ELSE e.scale]
      [] e.ev = "Box" -> [st EXCEPT !.b = <<[lb |-> e.lb, ub |-> e.ub]>>]
      [] e.ev = "Lin" -> [st EXCEPT !.a = <<[A |-> e.A, lb |-> e.lb, ub |-> e.ub]>>]
      [] OTHER -> st
\* calls that are refused, and change nothing
Refused(e) == \/ e.bad
              \/ e.ev = "ObjF" /\ st.o = <<>>
              \/ e.ev = "NlcF" /\ st.n = <<>>
              \/ e.ev = "Nlc" /\ e.m = "obj_scl" /\ Len(st.X) > 1 /\ st.o = <<>>
C1(a, b) == Close(<<a>>, <<b>>, "1e-9", RMul("1e-12", MaxAbs(<<b>>)))
\* a is the image, b what it should be, s the size of what was subtracted
Img(a, b, s) == LET e == RSeq(b) IN IF IsNone(a) THEN FALSE ELSE Close(a, e, "1e-9", RMul("1e-12", RMax(MaxAbs(e), s)))
Opt(a, given, f(_), s) == IF IsNone(given) THEN IsNone(a) ELSE Img(a, f(given), s)
Rows(v, f(_)) == [i \in 1 .. Len(v) |-> f(v[i])]
\* bounds: an infinite one stays infinite
Fin(v) == [i \in 1 .. Len(v) |-> IF RIsNum(v[i]) THEN v[i] ELSE "0"]
ImgBnd(a, given, b, s) == Len(a) = Len(given) /\ \A i \in 1 .. Len(given) : IF RIsNum(given[i]) THEN Img(<<a[i]>>, <<b[i]>>, s) ELSE a[i] = given[i]
\* values, deviations, gradients, deviations of gradients; w = data, with shift s and scale c
SizeX(s) == RMul(MaxAbs(s.cx), RMax(MaxAbs(s.X), MaxAbs(s.sx)))
ObjImage(q, s) ==
    IF s.o = <<>> THEN IsNone(q)
    ELSE LET w == s.o[1] p == P(s)
             z == RMul(w.c, RMax(MaxAbs(w.d.f), MaxAbs(<<w.s>>)))
         IN  ~IsNone(q)
             /\ Img(q.f, [i \in 1 .. Len(w.d.f) |-> MapV(w.s, w.c, w.d.f[i])], z)
             /\ Opt(q.sf, w.d.sf, LAMBDA v : [i \in 1 .. Len(v) |-> RMul(v[i], w.c)], 0)
             /\ Opt(q.g, w.d.g, LAMBDA v : Rows(v, LAMBDA r : MapG(p, w.c, r)), 0)
             /\ Opt(q.sg, w.d.sg, LAMBDA v : Rows(v, LAMBDA r : MapG(p, w.c, r)), 0)
NlcImage(q, s) ==
    IF s.n = <<>> THEN IsNone(q)
    ELSE LET w == s.n[1] p == P(s)
             z == RMul(w.c, RMax(MaxAbs(w.d.f), MaxAbs(w.s)))
         IN  ~IsNone(q)
             /\ Img(q.f, Rows(w.d.f, LAMBDA r : [j \in 1 .. Len(r) |-> MapV(w.s[j], w.c, r[j])]), z)
             /\ Opt(q.sf, w.d.sf, LAMBDA v : Rows(v, LAMBDA r : [j \in 1 .. Len(r) |-> RMul(r[j], w.c)]), 0)
             /\ Opt(q.g, w.d.g, LAMBDA v : Rows(v, LAMBDA m : Rows(m, LAMBDA r : MapG(p, w.c, r))), 0)
             /\ Opt(q.sg, w.d.sg, LAMBDA v : Rows(v, LAMBDA m : Rows(m, LAMBDA r : MapG(p, w.c, r))), 0)
StateClauses(q, s) ==
    LET p == P(s) IN
    << <<"scl-factors", /\ Img(q.sx, s.sx, 0) /\ Img(q.cx, s.cx, 0)
                        /\ s.o # <<>> => C1(q.so, s.o[1].s) /\ C1(q.co, s.o[1].c)
                        /\ s.n # <<>> => Img(q.sn, s.n[1].s, 0) /\ C1(q.cn, s.n[1].c)>>,
       <<"scl-points", Img(q.x, Rows(s.X, LAMBDA x : MapX(p, x)), SizeX(s))>>,
       <<"scl-differences", Img(q.R, [k \in 1 .. Dim(p) |-> [i \in 1 .. Len(s.X) |-> [j \in 1 .. Len(s.X) |->
                                        RMul(RSub(s.X[i][k], s.X[j][k]), s.cx[k])]]], SizeX(s))>>,
       <<"scl-values", ObjImage(q.o, s)>>,
       <<"scl-nlc", NlcImage(q.n, s)>>,
       <<"scl-box", IF s.b = <<>> THEN IsNone(q.b)
                    ELSE ~IsNone(q.b) /\ \A i \in {1, 2} : LET v == IF i = 1 THEN s.b[1].lb ELSE s.b[1].ub IN
                                                  ImgBnd(q.b[i], v, MapX(p, Fin(v)), RMul(MaxAbs(s.cx), RMax(MaxAbs(s.sx), MaxAbs(<<Fin(s.b[1].lb), Fin(s.b[1].ub)>>))))>>,
       <<"scl-lin", IF s.a = <<>> THEN IsNone(q.a)
                    ELSE LET z == RAdd(MaxAbs(<<Fin(s.a[1].lb), Fin(s.a[1].ub)>>), RMul(Dim(p), RMul(MaxAbs(s.a[1].A), MaxAbs(s.sx)))) IN
                         /\ ~IsNone(q.a)
                         /\ Img(q.a[1], Rows(s.a[1].A, LAMBDA r : MapA(p, r)), 0)
                         /\ ImgBnd(q.a[2], s.a[1].lb, [i \in 1 .. Len(s.a[1].lb) |-> MapB(p, s.a[1].A[i], Fin(s.a[1].lb)[i])], z)
                         /\ ImgBnd(q.a[3], s.a[1].ub, [i \in 1 .. Len(s.a[1].ub) |-> MapB(p, s.a[1].A[i], Fin(s.a[1].ub)[i])], z)>> >>
\* Mapping: e.q is what was mapped, e.out what came out, e.back what that was mapped back to
Six(e, s, there) ==
    LET nl == e.of = "nlc"
        w == IF nl THEN s.n[1] ELSE s.o[1]
        p == P(s)
        Vm(v) == IF there THEN MapV(w.s, w.c, v) ELSE BackV(w.s, w.c, v)
        Nm(r) == [j \in 1 .. Len(r) |-> IF there THEN MapV(w.s[j], w.c, r[j]) ELSE BackV(w.s[j], w.c, r[j])]
        Sm(v) == IF there THEN RMul(v, w.c) ELSE RDiv(v, w.c)
        Gm(g) == IF there THEN MapG(p, w.c, g) ELSE BackG(p, w.c, g)
        Hm(h) == IF there THEN MapH(p, w.c, h) ELSE BackH(p, w.c, h)
        q1 == IF IsNone(e.q[1]) THEN R(0) ELSE MaxAbs(e.q[1])
        z == IF there THEN RMul(w.c, RMax(q1, MaxAbs(<<w.s>>))) ELSE RMax(RDiv(q1, w.c), MaxAbs(<<w.s>>))
        Vf(v) == IF nl THEN Rows(v, Nm) ELSE [i \in 1 .. Len(v) |-> Vm(v[i])]
        Sf(v) == IF nl THEN Rows(v, LAMBDA r : [j \in 1 .. Len(r) |-> Sm(r[j])]) ELSE [i \in 1 .. Len(v) |-> Sm(v[i])]
        Gf(v) == IF nl THEN Rows(v, LAMBDA m : Rows(m, Gm)) ELSE Rows(v, Gm)
        Hf(v) == IF nl THEN Rows(v, LAMBDA m : Rows(m, Hm)) ELSE Rows(v, Hm)
    IN  /\ Opt(e.r[1], e.q[1], Vf, z)
        /\ Opt(e.r[2], e.q[2], Sf, 0)
        /\ \A i \in {3, 4} : Opt(e.r[i], e.q[i], Gf, 0)
        /\ \A i \in {5, 6} : Opt(e.r[i], e.q[i], Hf, 0)
        /\ \A i \in 1 .. 6 : IF IsNone(e.q[i]) THEN IsNone(e.back[i])
                              ELSE Close(e.back[i], e.q[i], "1e-9", RMul("1e-12", IF i > 1 THEN 0 ELSE RAdd(MaxAbs(e.q[i]), RMul(IF there THEN 1 ELSE w.c, MaxAbs(<<w.s>>)))))
MapOk(e, s) ==
    LET p == P(s) there == e.dir = "there" IN
    CASE e.of \in {"obj", "nlc"} -> Six(e, s, there)
      [] e.of = "x" -> /\ Img(e.r, Rows(e.q, LAMBDA x : IF there THEN MapX(p, x) ELSE BackX(p, x)), RMul(RMax(MaxAbs(s.cx), 1), RMax(MaxAbs(e.q), MaxAbs(s.sx))))
                       /\ Close(e.back, e.q, "1e-9", RMul("1e-11", RMul(RMax(1, MaxAbs(s.cx)), RMax(MaxAbs(e.q), MaxAbs(s.sx)))))
      [] e.of = "dist" -> /\ \/ C1(e.r, IF there THEN RMul(e.q, Mean(s.cx)) ELSE RDiv(e.q, Mean(s.cx)))
                          /\ C1(e.back, e.q)
Clauses(e) ==
    IF e.ev = "Map" THEN << <<"scl-outcome", e.res = "ok">>, <<"scl-map-" \o e.of, e.res = "ok" => MapOk(e, st)>> >>
    ELSE LET no == e.ev # "New" /\ Refused(e) IN
         << <<"scl-outcome", e.res = IF no THEN "exc" ELSE "ok">>,
            <<"scl-arguments", e.args>>,
            <<"scl-given", e.given>> >>
         \o (IF IsNone(e.obs) THEN << <<"scl-observable", FALSE>> >> ELSE StateClauses(e.obs, IF no THEN st ELSE After(e)))
Init == l = 1 /\ st = [o |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ st' = IF e.ev = "Map" THEN st ELSE IF e.ev # "New" /\ Refused(e) THEN st ELSE After(e)
             /\ Judge(l, Clauses(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
===============================================================================
