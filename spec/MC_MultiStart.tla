---------------------------- MODULE MC_MultiStart -----------------------------
(* All combinations of results of up to MaxN starts, which arrive one after the other; prints them for the replay.
   The vectors at which the optimizer may stop: NV of them in four classes (low: condition number clearly admissible, near: above the largest one that is
   asked for but within the tolerance, big: not admissible, fail: no factorization). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, BUG
VARIABLES r, usecstr
LeN(a, b) == a <= b
M == INSTANCE MultiStart WITH Le <- LeN
\* v: number of the vector; its objective is arbitrary
Vectors == { [v |-> 1, fun |-> 3, cond |-> 5], [v |-> 2, fun |-> 6, cond |-> 6], [v |-> 3, fun |-> 2, cond |-> 10], [v |-> 4, fun |-> 5, cond |-> 10],
             [v |-> 5, fun |-> 1, cond |-> 20], [v |-> 6, fun |-> 4, cond |-> 21], [v |-> 7, fun |-> 90, cond |-> 90] }
Limit == 11
Fail(x) == x.v = 7
Init == r = <<>> /\ usecstr \in BOOLEAN
Next == Len(r) < MaxN /\ \E x \in Vectors, ok \in BOOLEAN : r' = Append(r, [v |-> x.v, fun |-> x.fun, cond |-> x.cond, ok |-> ok]) /\ UNCHANGED usecstr
Spec == Init /\ [][Next]_<<r, usecstr>>
B(s) == IF BUG = "none" THEN M!Best(s, usecstr, Limit)
        ELSE IF BUG = "ok" THEN {j \in M!Best(s, usecstr, Limit) : s[j].ok}
        ELSE IF s = <<>> THEN {} ELSE IF BUG = "first" THEN {IF M!Feasible(s, usecstr, Limit) = {} THEN 1 ELSE CHOOSE j \in M!Best(s, usecstr, Limit) : TRUE}
        ELSE {j \in 1 .. Len(s) : \A i \in 1 .. Len(s) : s[j].fun <= s[i].fun}
Sel == B(r)
Some      == Len(r) > 0 => Sel # {}
Unique    == Cardinality({r[j].v : j \in Sel}) <= 1
NoFail    == (\E i \in 1 .. Len(r) : ~Fail(r[i])) => \A j \in Sel : ~Fail(r[j])
Admitted  == usecstr /\ (\E i \in 1 .. Len(r) : r[i].cond < Limit) => \A j \in Sel : r[j].cond < Limit
Optimal   == \A j \in Sel : \A i \in 1 .. Len(r) : r[i].fun < r[j].fun => usecstr /\ r[i].cond >= Limit /\ r[j].cond < Limit
\* the order of the starts does not matter
Rev(s)    == [j \in 1 .. Len(s) |-> s[Len(s) + 1 - j]]
Swap(s)   == IF Len(s) < 2 THEN s ELSE <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
Order     == \A s \in {Rev(r), Swap(r), Rev(Swap(r)), Swap(Rev(r))} : {s[j].v : j \in B(s)} = {r[j].v : j \in Sel}
Log       == Len(r) > 0 => PrintT(ToJson([r |-> [j \in 1 .. Len(r) |-> [v |-> r[j].v, ok |-> r[j].ok]], usecstr |-> usecstr]))
===============================================================================
