----------------------------- MODULE LayoutTrace ------------------------------
(* Recorded layouts, decoded vectors and initial hyperparameters against HpLayout *)
EXTENDS Trace, GPModel, FiniteSets
LY == INSTANCE HpLayout
VARIABLE l
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Num(x) == ~IsNone(x)

\* e.k configuration, e.has flags (given, or those of the configuration), e.info what the code says, e.vec a vector and e.h what it decodes to
LayoutOk(e) ==
    LET has == IF e.own THEN LY!Has(e.k) ELSE e.has
        F   == LY!Flat(has, e.k.dim)
    IN  << <<"layout-size", e.info.n = Len(F)>>,
           <<"layout-has", \A i \in 1 .. 5 : e.info.has[LY!Order[i]] = has[LY!Order[i]]>>,
           <<"layout-idx", \A i \in 1 .. 5 : ToSet(e.info.idx[LY!Order[i]]) = LY!Pos(F, LY!Order[i]) /\ Len(e.info.idx[LY!Order[i]]) = Cardinality(LY!Pos(F, LY!Order[i]))>>,
           <<"layout-log", e.info.log = LY!LogMask(e.k, F)>> >>

RECURSIVE PowTen(_)
PowTen(v) == RExp(RMul(v, RLn(10)))
Val(k, F, v, f, j) == LET i == CHOOSE i \in 1 .. Len(F) : F[i] = <<f, j>> IN IF LY!IsLog(k, f) THEN PowTen(v[i]) ELSE R(v[i])
Decoded(e) ==
    LET has == IF e.own THEN LY!Has(e.k) ELSE e.has
        F   == LY!Flat(has, e.k.dim) h == e.h
        ok(x, f) == IF has[f] THEN Num(x) /\ CloseR(x, Val(e.k, F, e.vec, f, 1), "1e-11", 0)
                    ELSE IF f = "alpha" THEN (IF LY!HasKernHp(e.k) THEN Num(x) /\ CloseR(x, e.alpha0, 0, 0) ELSE IsNone(x)) ELSE IsNone(x)
    IN  << <<"decode-outcome", e.out = "ok">> >>
        \o (IF e.out # "ok" THEN <<>> ELSE
        << <<"decode-theta", IF has.theta THEN Len(h.theta) = e.k.dim /\ \A j \in 1 .. e.k.dim : CloseR(h.theta[j], Val(e.k, F, e.vec, "theta", j), "1e-11", 0) ELSE h.theta = <<>> >>,
           <<"decode-alpha", ok(h.alpha, "alpha")>>, <<"decode-varK", ok(h.varK, "varK")>>, <<"decode-vf", ok(h.vf, "vf")>>, <<"decode-vg", ok(h.vg, "vg")>>,
           <<"decode-beta", h.beta = <<>> >>,
           <<"decode-pure", e.vec = e.vecafter /\ e.h = e.hlater>> >>)

\* initial hyperparameters: i are the configured initial values
Initial(e) ==
    LET h == e.h ds == Scaled(e.c, e.d, e.xs)
    IN  << <<"init-theta", Len(h.theta) = e.c.dim /\ \A j \in 1 .. e.c.dim : CloseR(h.theta[j], e.i.theta, 0, 0)>>,
           <<"init-beta", Len(h.beta) = 1 /\ CloseR(h.beta[1], RDiv(RSum(ds.f), N(e.d)), "1e-9", RMul("1e-9", MaxAbs(ds.f)))>>,
           <<"init-alpha", IF e.c.kern = "RatQu" THEN CloseR(h.alpha, e.i.alpha, 0, 0) ELSE IsNone(h.alpha)>>,
           <<"init-varK", CloseR(h.varK, e.i.varK, 0, 0)>>,
           <<"init-vf", IF e.d.ksf THEN IsNone(h.vf) ELSE Num(h.vf) /\ CloseR(h.vf, e.i.vf, 0, 0)>>,
           <<"init-vg", IF ~e.c.ug \/ e.d.ksg THEN IsNone(h.vg) ELSE Num(h.vg) /\ CloseR(h.vg, e.i.vg, 0, 0)>> >>

Clauses(e) ==
    CASE e.ev = "Layout" -> IF e.out = "ok" THEN LayoutOk(e) ELSE << <<"layout-outcome", FALSE>> >>
      [] e.ev = "Decode" -> Decoded(e)
      [] e.ev = "Init"   -> IF e.out = "ok" THEN Initial(e) ELSE << <<"init-outcome", FALSE>> >>
      \* custom hyperparameters: given, kept by the object, and stored for an iteration
      [] e.ev = "Custom" -> << <<"custom-outcome", e.out = "ok">>, <<"custom-kept", e.h = e.given>>, <<"custom-stored", e.stored = e.given>> >>
      [] e.ev = "BadCustom" -> << <<"custom-rejected", e.out = "exc" /\ e.h = e.before>> >>

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(l, Clauses(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
