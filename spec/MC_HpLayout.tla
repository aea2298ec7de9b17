------------------------------ MODULE MC_HpLayout -----------------------------
(* All configurations *)
EXTENDS HpLayout, TLC, Json
CONSTANT MaxDim
VARIABLE k
Configs == [kern : {"SqExp", "Ma5f2", "RatQu"}, dim : 1 .. MaxDim, ug : BOOLEAN, optalpha : BOOLEAN, logth : BOOLEAN, logkern : BOOLEAN, logvar : BOOLEAN,
            nf : {"z", "k", "u"}, ng : {"z", "k", "u"}]
Init == k \in {c \in Configs : c.ug \/ c.ng = "z"}
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Log == PrintT(ToJson(k))
F == Flat(Has(k), k.dim)
H == [f \in {Order[i] : i \in 1 .. 5} |-> IF f = "theta" THEN [j \in 1 .. k.dim |-> <<f, j>>] ELSE << <<f, 1>> >>]
\* Every position belongs to exactly one hyperparameter
Partition == /\ UNION {Pos(F, Order[i]) : i \in 1 .. 5} = 0 .. Len(F) - 1
             /\ \A i, j \in 1 .. 5 : i # j => Pos(F, Order[i]) \cap Pos(F, Order[j]) = {}
             /\ Cardinality(Pos(F, "theta")) = k.dim
Present == \A i \in 1 .. 5 : Has(k)[Order[i]] <=> Pos(F, Order[i]) # {}
RoundTrip == Decode(k, F, Encode(k, F, H)) = [f \in {Order[i] : i \in 1 .. 5} |-> IF Has(k)[f] THEN H[f] ELSE <<>>]
\* Noise variances are optimized only if they are not known, and then the variance is not in closed form
Consistent == (Has(k).vf => k.nf = "u") /\ (Has(k).vg => k.ug /\ k.ng = "u") /\ (Has(k).vf \/ Has(k).vg => Has(k).varK)
=============================================================================
