------------------------------ MODULE MC_RunBest ------------------------------
(***************************************************************************)
(* A pass over a history that carries the best value so far gives the best *)
(* value at every iteration; the part after the last known value is then   *)
(* cleared.  0 stands for a missing value.                                 *)
(***************************************************************************)
EXTENDS RunHist, TLC, Json
CONSTANTS MaxLen, V, BUG
VARIABLES h, carry, max
vars == <<h, carry, max>>
Known(v) == v # 0
Better(v, w) == IF max THEN v >= w ELSE v <= w
Pick(v, w) == IF BUG = "poison" /\ (v = 0 \/ w = 0) THEN 0
              ELSE IF BUG = "latest" THEN IF w = 0 THEN v ELSE w
              ELSE IF v = 0 THEN w ELSE IF w = 0 THEN v ELSE IF Better(v, w) THEN v ELSE w
Init == h = <<>> /\ carry = <<>> /\ max \in BOOLEAN
Next == /\ Len(h) < MaxLen
        /\ \E v \in 0 .. V : h' = Append(h, v) /\ carry' = Append(carry, IF h = <<>> THEN v ELSE Pick(carry[Len(carry)], v))
        /\ UNCHANGED max
Spec == Init /\ [][Next]_vars
Ends(i) == \A j \in i .. Len(h) : h[j] = 0
Code == [i \in 1 .. Len(h) |-> IF BUG # "no_end" /\ Ends(i) THEN 0 ELSE carry[i]]
Correct == Code = Best(h, Known, Better, 0)
\* consequences: never worse than before, and never better than all values seen
Monotone == LET c == Code IN \A i \in 1 .. Len(h) : \A j \in 1 .. i : c[i] # 0 /\ c[j] # 0 => Better(c[i], c[j])
Attained == LET c == Code IN \A i \in 1 .. Len(h) : c[i] # 0 => \E j \in 1 .. i : c[i] = h[j]
Log == ~max => PrintT(ToJson(h))
===============================================================================
