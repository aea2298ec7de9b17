----------------------------- MODULE MC_HpBounds ------------------------------
(* The bounds for all histories, on a logarithmic scale with integer exponents: the iterations run one after the other, each optimum lies in its bounds, or
   is changed by hand to anything.  BUG selects a defective rule. *)
EXTENDS HpBounds, TLC
CONSTANTS Lo, Hi, MinV, MaxV, LhsF, BoxF, Win, MaxIter, InitV, BUG
VARIABLES h, i
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Clip(v) == Min(Max(v, Lo), Hi)
Insert(s, v) == LET k == Cardinality({j \in 1 .. Len(s) : s[j] < v}) IN SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), Head(s))
Median(s) == LET t == Sort(s) n == Len(s) IN IF n % 2 = 1 THEN t[(n + 1) \div 2] ELSE (t[n \div 2] + t[n \div 2 + 1]) \div 2
Past == IF i = 0 THEN <<InitV>> ELSE Window(h, i, Win)
Centre == IF BUG = "noclip" THEN Median(Past) ELSE Clip(Median(Past))
B == [lhslo |-> Max(Centre - LhsF, Lo), lhshi |-> Min(Centre + LhsF, Hi), boxlo |-> Max(Centre - BoxF, Lo), boxhi |-> Min(Centre + BoxF, Hi)]
Init == h = <<>> /\ i = 0
Next == i < MaxIter /\ i' = i + 1 /\ \E v \in MinV .. MaxV : h' = Append(h, v)
Spec == Init /\ [][Next]_<<h, i>>
InRange  == Lo <= B.boxlo /\ B.boxhi <= Hi
Nested   == B.boxlo <= B.lhslo /\ B.lhshi <= B.boxhi
Ordered  == B.lhslo < B.lhshi /\ B.boxlo < B.boxhi
Contains == B.lhslo <= Centre /\ Centre <= B.lhshi
\* only the last Win rows matter
Recent   == i > Win => LET p == IF BUG = "all" THEN h ELSE Past IN Len(p) <= Win /\ \A j \in 1 .. Len(p) : p[j] = h[i - Len(p) + j]
===============================================================================
