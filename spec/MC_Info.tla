------------------------------- MODULE MC_Info -------------------------------
(***************************************************************************)
(* A history with Slots rows; rows are written (again) in any order, the   *)
(* history is cut when the optimization ends, and begun again.  A table    *)
(* has one line for each row, in order, with what the row holds now.       *)
(* 0: nothing was written.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, Vals, BUG
VARIABLES h, tab, act
vars == <<h, tab, act>>
Empty(n) == [i \in 1 .. n |-> 0]
Ideal(g) == [i \in 1 .. Len(g) |-> <<i - 1, g[i]>>]
Written(g) == SelectSeq(g, LAMBDA v : v # 0)
Table(g) == CASE BUG = "written" -> Ideal(Written(g))
              [] BUG = "full"    -> Ideal([i \in 1 .. Slots |-> IF i <= Len(g) THEN g[i] ELSE 0])
              [] OTHER -> Ideal(g)
Init == h = Empty(Slots) /\ tab = <<>> /\ act = ""
Store(i, v) == i <= Len(h) /\ h' = [h EXCEPT ![i] = v] /\ UNCHANGED tab
Finish(n) == n <= Len(h) /\ h' = SubSeq(h, 1, n) /\ UNCHANGED tab
Again == h' = Empty(Slots) /\ UNCHANGED tab
\* what was shown first is shown again
Show == /\ tab' = (IF BUG = "cached" /\ tab # <<>> /\ Len(tab[1]) = Len(h) THEN <<tab[1], h>> ELSE <<Table(h), h>>)
        /\ UNCHANGED h
Ops == {[name |-> "Store", k |-> <<i, v>>] : i \in 1 .. Slots, v \in 1 .. Vals} \cup {[name |-> "Finish", k |-> <<n>>] : n \in 1 .. Slots}
       \cup {[name |-> "Again", k |-> <<0>>], [name |-> "Show", k |-> <<0>>]}
Do(o) == CASE o.name = "Store" -> Store(o.k[1], o.k[2]) [] o.name = "Finish" -> Finish(o.k[1]) [] o.name = "Again" -> Again [] o.name = "Show" -> Show
Next == \E o \in Ops : Do(o) /\ act' = o.name
Spec == Init /\ [][Next]_vars
Faithful == tab # <<>> => tab[1] = Ideal(tab[2])
TourNext == \E o \in Ops : Do(o) /\ act' = o.name /\ PrintT(ToJson(<<h, [name |-> o.name, k |-> o.k, out |-> ""], h'>>))
TourSpec == Init /\ [][TourNext]_vars
View == h
===============================================================================
