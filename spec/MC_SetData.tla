------------------------------ MODULE MC_SetData ------------------------------
(***************************************************************************)
(* Enumerates the argument space of set_data: from every valid combination *)
(* arguments are replaced one at a time.                                   *)
(***************************************************************************)
EXTENDS SetDataArgs, TLC, Json
CONSTANTS Dim, UseGrad
VARIABLES a, n
Init == a \in Base(Dim, UseGrad) /\ n = 0
Change == \E f \in Fields : \E v \in Alt(f, Dim) : a' = [a EXCEPT ![f] = v] /\ Possible(a') /\ a' # a
Next == n < Depth /\ Change /\ n' = n + 1
Spec == Init /\ [][Next]_<<a, n>>
View == a
Log == PrintT(ToJson(a))
\* The starting combinations are valid, and validity is the same for data with one more point with gradient
BaseValid == n = 0 => Valid(Dim, UseGrad, a)
\* A single argument of another size never gives a valid combination unless noise or the number of gradients allow it
OneChange == n = 1 /\ Valid(Dim, UseGrad, a) => \E b \in Base(Dim, UseGrad) : Size(a.f.sh) = Size(b.f.sh) /\ a.x.sh = b.x.sh /\ (a.g.k = b.g.k) /\ a.g.sh = b.g.sh
=============================================================================
