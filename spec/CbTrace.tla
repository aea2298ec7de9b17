-------------------------------- MODULE CbTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the callbacks.  A Ref event gives the values at the   *)
(* vector e.v for the data e.d, obtained from an object that was asked for *)
(* nothing else; the Cb events that follow have to repeat them.            *)
(***************************************************************************)
EXTENDS Trace, GPModel
VARIABLES l, ref
None == <<>>
Same(a, b) == IF IsNone(b) THEN IsNone(a) ELSE ~IsNone(a) /\ Close(a, b, "1e-9", RMul("1e-9", MaxAbs(b)))
SameNeg(a, b) == ~IsNone(a) /\ ~IsNone(b) /\ Close(a, VScale(-1, b), "1e-9", RMul("1e-9", MaxAbs(b)))
At(e) == ref[e.d][e.v]
Want(e) == LET x == At(e) IN
    CASE e.f = "val"   -> Same(e.got[1], x.val)
      [] e.f = "grad"  -> Same(e.got[1], x.grad)
      [] e.f \in {"cond", "nlc"} -> Same(e.got[1], x.cond)
      [] e.f \in {"cgrad", "nlcgrad"} -> Same(e.got[1], x.cgrad)
      \* likelihood (with the other sign), its gradient, condition number and its gradient
      [] e.f = "store" -> Same(e.got[1], RNeg(x.val)) /\ SameNeg(e.got[2], x.grad) /\ (e.usecstr => Same(e.got[3], x.cond) /\ Same(e.got[4], x.cgrad))
      [] e.f = "storecond" -> Same(e.got[1], RNeg(x.val)) /\ SameNeg(e.got[2], x.grad) /\ Same(e.got[3], x.cond1)
      [] e.f = "storeval" -> Same(e.got[1], RNeg(x.val))
RefClauses(e) ==
    << <<"cb-outcome", e.out = "ok">>,
       \* without factorization the condition number takes the place of the objective
       <<"cb-fail", e.out = "ok" /\ e.fail => Same(e.val, e.cond) /\ Same(e.grad, e.cgrad)>>,
       <<"cb-present", e.out = "ok" => ~IsNone(e.val) /\ ~IsNone(e.grad) /\ (e.usecstr => ~IsNone(e.cond) /\ ~IsNone(e.cgrad))>> >>
CbClauses(e) == << <<"cb-outcome", e.out = "ok">>, <<"cb-pure-" \o e.f, e.out = "ok" => Want(e)>> >>
Clauses(e) == CASE e.ev = "Ref" -> RefClauses(e) [] e.ev = "Cb" -> CbClauses(e) [] OTHER -> <<>>
Init == l = 1 /\ ref = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ ref' = IF e.ev = "New" THEN [d \in 1 .. e.nd |-> [v \in 1 .. e.nv |-> 0]] ELSE IF e.ev = "Ref" THEN [ref EXCEPT ![e.d][e.v] = e] ELSE ref
             /\ Judge(l, Clauses(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, ref>>
===============================================================================
