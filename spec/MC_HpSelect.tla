----------------------------- MODULE MC_HpSelect ------------------------------
(* Selection of the start for all outcomes of the samples; prints them for the replay.  Conditions are in tenths of the largest one that is allowed for the
   optimization (10), of which starts may exceed by a fifth. *)
EXTENDS HpBounds, TLC, Json
CONSTANTS MaxN, Conds, Lkds, BUG
VARIABLES o, usecond
Limit == 12
Outcomes == [good : {TRUE}, lkd : Lkds, cond : Conds] \cup [good : {FALSE}, lkd : {0}, cond : {0}]
Init == o = <<>> /\ usecond \in BOOLEAN
Next == Len(o) < MaxN /\ \E x \in Outcomes : o' = Append(o, x) /\ UNCHANGED usecond
Spec == Init /\ [][Next]_<<o, usecond>>
Sel == IF BUG = "none" THEN Selected(o, Limit, usecond) ELSE IF BUG = "nocond" THEN Argmax(o, Good(o)) ELSE Argmin(o, Good(o))
Some       == Good(o) # {} => Sel # {}
Never      == \A j \in Sel : o[j].good
Best       == \A j \in Sel : \A k \in Admissible(o, Limit, usecond) : o[k].lkd <= o[j].lkd
Legal      == Admissible(o, Limit, usecond) # {} => Sel \subseteq Admissible(o, Limit, usecond)
Log        == (Good(o) # {} /\ Len(o) > 0) => PrintT(ToJson([o |-> o, usecond |-> usecond]))
===============================================================================
