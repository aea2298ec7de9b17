--------------------------- MODULE MC_HpLayout_BAD ----------------------------
(* Defective readings of the vector, which the invariants have to reject *)
EXTENDS MC_HpLayout
CONSTANT BUG
BadF == IF BUG = "shift" /\ Has(k).vf /\ Has(k).vg /\ k.dim > 1 THEN SubSeq(F, 1, Len(F) - 2) \o <<F[Len(F)], F[Len(F) - 1]>> ELSE F
BadK == IF BUG = "log" THEN [k EXCEPT !.logvar = k.logkern] ELSE k
BadRoundTrip == Decode(BadK, BadF, Encode(k, F, H)) = [f \in {Order[i] : i \in 1 .. 5} |-> IF Has(k)[f] THEN H[f] ELSE <<>>]
===============================================================================
