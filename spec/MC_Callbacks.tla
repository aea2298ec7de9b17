----------------------------- MODULE MC_Callbacks -----------------------------
(***************************************************************************)
(* The optimizer calls the objective, its gradient, the condition number   *)
(* and its gradient at vectors, in any order.  It may pass the same array  *)
(* again with other contents, change results that it was given, and        *)
(* between optimizations the data are replaced.  The code may remember the *)
(* last evaluation (MODE).                                                 *)
(* buf    contents of the array that the caller uses again                 *)
(* last   the last results handed out: are they as they were               *)
(* memo   what the code remembers: key (contents, or a reference to buf),  *)
(*        data, value stored, does it have gradients                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MODE, Depth
VARIABLES buf, data, memo, obs, hist
vars == <<buf, data, memo, obs, hist>>
Vecs == {1, 2}
Datas == {1, 2}
Funs == {"val", "grad", "cond", "cgrad", "store", "storeval", "storecond"}
WithGrad(f) == f \notin {"storeval"}
Ideal(f, v, d) == [f |-> f, v |-> v, d |-> d, ok |-> TRUE]
None == [key |-> 0, ref |-> FALSE, d |-> 0, v |-> 0, g |-> FALSE, clean |-> TRUE]
Init == buf = 1 /\ data = 1 /\ memo = None /\ obs = [got |-> 0, want |-> 0] /\ hist = <<>>
\* Is what is remembered used for contents v (in the array buf, if inplace)?
Hit(f, v, inplace) ==
    /\ MODE # "none"
    /\ IF memo.ref THEN inplace \/ memo.key = v ELSE memo.key = v
    /\ memo.key # 0
    /\ MODE # "stale" => memo.d = data
    /\ MODE # "nograd" => (WithGrad(f) => memo.g)
Call(f, v, inplace) ==
    LET b2  == IF inplace THEN v ELSE buf
        hit == Hit(f, v, inplace)
        m   == IF hit THEN memo ELSE [key |-> v, ref |-> MODE = "ref" /\ inplace, d |-> data, v |-> v, g |-> WithGrad(f), clean |-> TRUE]
    IN  /\ buf' = b2
        /\ memo' = IF MODE = "none" THEN None ELSE m
        /\ obs' = [got |-> IF MODE = "none" THEN Ideal(f, v, data) ELSE [f |-> f, v |-> m.v, d |-> m.d, ok |-> m.clean /\ (WithGrad(f) => m.g)], want |-> Ideal(f, v, data)]
        /\ UNCHANGED data
SetData(d) == data' = d /\ UNCHANGED <<buf, memo, obs>>
\* the caller changes the arrays that it was given last
Spoil == /\ memo' = IF MODE = "alias" THEN [memo EXCEPT !.clean = FALSE] ELSE memo
         /\ UNCHANGED <<buf, data, obs>>
Ops == {[name |-> "Call", k |-> <<f, v, b>>] : f \in Funs, v \in Vecs, b \in BOOLEAN} \cup {[name |-> "Data", k |-> d] : d \in Datas} \cup {[name |-> "Spoil", k |-> 0]}
Do(o) == CASE o.name = "Call" -> Call(o.k[1], o.k[2], o.k[3]) [] o.name = "Data" -> SetData(o.k) [] o.name = "Spoil" -> Spoil
\* the last Depth operations are part of the state, so that a tour of the transitions has all sequences of Depth + 1 operations
Next == \E o \in Ops : Do(o) /\ hist' = IF Len(hist) < Depth THEN Append(hist, o) ELSE Append(Tail(hist), o)
Spec == Init /\ [][Next]_vars
Pure == obs.got = obs.want
\* for the tour
TourNext == \E o \in Ops : hist' = (IF Len(hist) < Depth THEN Append(hist, o) ELSE Append(Tail(hist), o)) /\ UNCHANGED <<buf, data, memo, obs>>
TourSpec == Init /\ [][TourNext]_vars
Log == PrintT(ToJson(<<hist, [name |-> hist'[Len(hist')].name, k |-> hist'[Len(hist')].k, out |-> ""], hist'>>))
===============================================================================
