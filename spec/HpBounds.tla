------------------------------- MODULE HpBounds -------------------------------
(***************************************************************************)
(* Bounds for the optimization of the hyperparameters and the choice of    *)
(* its starting points.  Values are on an ordered scale on which a factor  *)
(* is a difference; le, add, sub are given so that the same definitions    *)
(* serve integers (model checking) and reals (validation of traces).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The part of the history that counts before iteration i (from 0), with the rows 0 .. i-1 in h
Window(h, i, win) == SubSeq(h, IF i > win THEN i - win + 1 ELSE 1, i)

\* Starting points.  o[j] = [good, lkd, cond] outcome of the sample j; limit on the condition number (none for the preconditioner)
Admissible(o, limit, usecond) == {j \in 1 .. Len(o) : o[j].good /\ (~usecond \/ ~(limit < o[j].cond))}
Good(o) == {j \in 1 .. Len(o) : o[j].good}
Argmax(o, S) == {j \in S : \A i \in S : o[i].lkd <= o[j].lkd}
Argmin(o, S) == {j \in S : \A i \in S : o[j].cond <= o[i].cond}
\* The samples that may be selected: the best admissible, otherwise the least ill-conditioned
Selected(o, limit, usecond) ==
    LET A == Admissible(o, limit, usecond) IN IF A # {} THEN Argmax(o, A) ELSE Argmin(o, Good(o))
===============================================================================
