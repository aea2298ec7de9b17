------------------------------ MODULE MC_Scaling ------------------------------
(***************************************************************************)
(* The data that were given and the factors change one at a time; copies   *)
(* of the scaled data are kept.  Data and factors are only identified here *)
(* (numbers); a copy names the data and factors that it was made with.     *)
(*   fx            factors of the locations (0: those chosen by the code)  *)
(*   o, n, b, l    values, nonlinear constraints, box and linear           *)
(*                 constraints: data (0: not given), shift, scale          *)
(*   copies        ov, og: values and gradients; nv, ng: those of the      *)
(*                 constraints; box, lin                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS FX, DO, FO, DN, FN, DB, BUG
VARIABLES fx, o, n, b, l, c, act
vars == <<fx, o, n, b, l, c, act>>
None == [d |-> 0, s |-> 0, c |-> 0]
Init == /\ fx = 0 /\ o = None /\ n = None /\ b = 0 /\ l = 0 /\ act = ""
        /\ c = [ov |-> <<0, 0, 0>>, og |-> <<0, 0, 0>>, nv |-> <<0, 0, 0>>, ng |-> <<0, 0, 0>>, box |-> <<0, 0>>, lin |-> <<0, 0>>]
\* copies made now
Ov(d) == IF d.d = 0 THEN <<0, 0, 0>> ELSE <<d.d, d.s, d.c>>
Og(d, f) == IF d.d = 0 THEN <<0, 0, 0>> ELSE <<d.d, d.c, f>>
Cn(d, f) == IF d = 0 THEN <<0, 0>> ELSE <<d, f>>
SetX(k) == /\ fx' = k /\ act' = "ok" /\ UNCHANGED <<o, n, b, l>>
           /\ c' = [c EXCEPT !.og  = IF BUG = "x_not_obj" THEN @ ELSE Og(o, k),
                             !.ng  = IF BUG = "x_not_nlc" THEN @ ELSE Og(n, k),
                             !.box = IF BUG = "x_not_box" THEN @ ELSE Cn(b, k),
                             !.lin = IF BUG = "x_not_lin" THEN @ ELSE Cn(l, k)]
PutObj(d) == o' = d /\ c' = [c EXCEPT !.ov = Ov(d), !.og = IF BUG = "obj_scale_not_grad" /\ d.d = o.d THEN @ ELSE Og(d, fx)]
\* new values come with their own factors (0)
SetObj(d) == PutObj([d |-> d, s |-> 0, c |-> 0]) /\ act' = "ok" /\ UNCHANGED <<fx, n, b, l>>
\* k: shift, m: scale (0: keep)
SetObjF(k, m) ==
    /\ UNCHANGED <<fx, n, b, l>>
    /\ IF o.d = 0 THEN act' = "exc" /\ UNCHANGED <<o, c>>
       ELSE PutObj([d |-> o.d, s |-> IF k = 0 THEN o.s ELSE k, c |-> IF m = 0 THEN o.c ELSE m]) /\ act' = "ok"
PutNlc(d) == n' = d /\ c' = [c EXCEPT !.nv = Ov(d), !.ng = Og(d, fx)]
\* w: the scale of the constraints is that of the values
SetNlc(d, w) ==
    /\ UNCHANGED <<fx, o, b, l>>
    /\ IF w /\ o.d = 0 THEN act' = "exc" /\ UNCHANGED c /\ n' = IF BUG = "refused_stores" THEN [n EXCEPT !.d = d] ELSE n
       ELSE PutNlc([d |-> d, s |-> 0, c |-> IF w THEN 100 + 10 * o.d + o.c ELSE 0]) /\ act' = "ok"
SetNlcF(k, m) ==
    /\ UNCHANGED <<fx, o, b, l>>
    /\ IF n.d = 0 THEN act' = "exc" /\ UNCHANGED <<n, c>>
       ELSE PutNlc([d |-> n.d, s |-> IF k = 0 THEN n.s ELSE k, c |-> IF m = 0 THEN n.c ELSE m]) /\ act' = "ok"
SetBox(d) == b' = d /\ c' = [c EXCEPT !.box = Cn(d, fx)] /\ act' = "ok" /\ UNCHANGED <<fx, o, n, l>>
SetLin(d) == l' = d /\ c' = [c EXCEPT !.lin = Cn(d, fx)] /\ act' = "ok" /\ UNCHANGED <<fx, o, n, b>>
Ops ==      {[name |-> "X", k |-> <<k>>] : k \in 0 .. FX}
       \cup {[name |-> "Obj", k |-> <<d>>] : d \in 1 .. DO}
       \cup {[name |-> "ObjF", k |-> <<k, m>>] : k \in 0 .. FO, m \in 0 .. FO}
       \cup {[name |-> "Nlc", k |-> <<d, w>>] : d \in 1 .. DN, w \in 0 .. 1}
       \cup {[name |-> "NlcF", k |-> <<k, m>>] : k \in 0 .. FN, m \in 0 .. FN}
       \cup {[name |-> "Box", k |-> <<d>>] : d \in 1 .. DB}
       \cup {[name |-> "Lin", k |-> <<d>>] : d \in 1 .. DB}
Do(p) == CASE p.name = "X" -> SetX(p.k[1]) [] p.name = "Obj" -> SetObj(p.k[1]) [] p.name = "ObjF" -> SetObjF(p.k[1], p.k[2])
           [] p.name = "Nlc" -> SetNlc(p.k[1], p.k[2] = 1) [] p.name = "NlcF" -> SetNlcF(p.k[1], p.k[2])
           [] p.name = "Box" -> SetBox(p.k[1]) [] p.name = "Lin" -> SetLin(p.k[1])
Next == \E p \in Ops : Do(p)
Spec == Init /\ [][Next]_vars
\* every copy is of the current data with the current factors
NoMix == /\ c.ov = Ov(o) /\ c.og = Og(o, fx) /\ c.nv = Ov(n) /\ c.ng = Og(n, fx)
         /\ c.box = Cn(b, fx) /\ c.lin = Cn(l, fx)
View == <<fx, o, n, b, l, c>>
St == <<fx, o, n, b, l>>
TourNext == \E p \in Ops : Do(p) /\ PrintT(ToJson(<<St, [name |-> p.name, k |-> p.k, out |-> act'], St'>>))
TourSpec == Init /\ [][TourNext]_vars
===============================================================================
