------------------------------ MODULE MultiTrace ------------------------------
(***************************************************************************)
(* Recorded optimizations from several starts against MultiStart.          *)
(* e.res[j] = [x, fun, cond, ok, nit] what the optimizer was made to give  *)
(* for the start j, e.starts[j] = [cond, good] the start,                  *)
(* e.max the largest condition number, e.best, e.cond, e.info the outcome  *)
(***************************************************************************)
EXTENDS Trace, GPModel
MS == INSTANCE MultiStart WITH Le <- RLe
VARIABLE l
Lim(e) == RMul("1.01", e.max)
Mean(s) == RDiv(RSum(s), Len(s))
B01(b) == IF b THEN 1 ELSE 0
Count(s, T(_)) == LET n == Len(s) IN RSum([j \in 1 .. n |-> B01(T(s[j]))])
MaxR(s) == LET RECURSIVE M(_) M(j) == IF j = 1 THEN R(s[1]) ELSE RMax(M(j - 1), s[j]) IN M(Len(s))
Multi(e) ==
    LET n == Len(e.res) B == MS!Best(e.res, e.usecstr, Lim(e)) F == MS!Feasible(e.res, e.usecstr, Lim(e))
    IN  << <<"ms-best", \E j \in B : e.best = e.res[j].x>>,
           <<"ms-cond", \E j \in B : CloseR(e.cond, e.res[j].cond0, "1e-6", 0)>>,
           <<"ms-starts", e.ran = n>>,
           <<"ms-bounds", e.boundsok>>,
           <<"ms-constraint", IF e.usecstr THEN \A j \in 1 .. Len(e.nlc) : \/ e.nlc[j].sat = "unknown" \/ (e.nlc[j].sat = "yes" <=> RLe(e.nlc[j].cond, e.max)) ELSE ~e.hascstr>>,
           <<"ms-success", CloseR(e.info.success, Mean([j \in 1 .. n |-> B01(e.res[j].ok)]), "1e-12", 0)>>,
           <<"ms-iter-mean", CloseR(e.info.itermean, Mean([j \in 1 .. n |-> e.res[j].nit]), "1e-12", 0)>>,
           <<"ms-iter-max", CloseR(e.info.itermax, MaxR([j \in 1 .. n |-> e.res[j].nit]), 0, 0)>>,
           <<"ms-con-good", CloseR(e.info.congood, RDiv(Len(SelectSeq([j \in 1 .. n |-> j], LAMBDA j : j \in F)), n), "1e-12", 0)>>,
           <<"ms-cho-fail", CloseR(e.info.chofail, IF e.usecstr THEN Count(e.starts, LAMBDA s : ~s.good) ELSE 0, 0, 0)>>,
           <<"ms-cond2big", CloseR(e.info.cond2big, IF e.usecstr THEN Count(e.starts, LAMBDA s : RLt(e.max, s.cond)) ELSE 0, 0, 0)>>,
           <<"ms-max-cond", IF e.usecstr THEN CloseR(e.info.maxcond, MaxR([j \in 1 .. n |-> e.starts[j].cond]), "1e-6", 0) ELSE ~RIsNum(e.info.maxcond)>> >>
Clauses(e) == IF e.out = "ok" THEN Multi(e) ELSE << <<"ms-outcome", FALSE>> >>
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(l, Clauses(Trace[l]))
Spec == Init /\ [][Next]_l
===============================================================================
