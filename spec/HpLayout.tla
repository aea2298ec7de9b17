------------------------------- MODULE HpLayout -------------------------------
(***************************************************************************)
(* Which hyperparameters are optimized numerically, where they are in the  *)
(* vector, and which entries are logarithms.                               *)
(* Configuration: kern, dim, ug, optalpha, logth, logkern, logvar, and of  *)
(* the data: nf, ng in {"z" zero, "k" known, "u" unknown} (noise of values *)
(* and gradients).                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

HasKernHp(k) == k.kern = "RatQu"
NoisyData(k) == k.nf # "z" \/ (k.ug /\ k.ng # "z")
\* which are optimized, in their order
Has(k) == [theta |-> TRUE, alpha |-> k.optalpha /\ HasKernHp(k), varK |-> NoisyData(k), vf |-> k.nf = "u", vg |-> k.ug /\ k.ng = "u"]
Order == <<"theta", "alpha", "varK", "vf", "vg">>

\* The sequence of fields of the vector, for given flags
Flat(has, dim) ==
    LET RECURSIVE F(_)
        F(i) == IF i > 5 THEN <<>>
                ELSE (IF has[Order[i]] THEN IF Order[i] = "theta" THEN [j \in 1 .. dim |-> <<"theta", j>>] ELSE << <<Order[i], 1>> >> ELSE <<>>) \o F(i + 1)
    IN  F(1)
\* Positions (from 0) of a field
Pos(flat, f) == {i \in 0 .. Len(flat) - 1 : flat[i + 1][1] = f}
IsLog(k, f) == IF f = "theta" THEN k.logth ELSE IF f = "alpha" THEN k.logkern ELSE k.logvar
LogMask(k, flat) == [i \in 1 .. Len(flat) |-> IsLog(k, flat[i][1])]

\* Encoding and decoding with symbolic values: an entry is <<field, number, is it a logarithm>>
Encode(k, flat, h) == [i \in 1 .. Len(flat) |-> <<h[flat[i][1]][flat[i][2]], IsLog(k, flat[i][1])>>]
Decode(k, flat, v) == [f \in {Order[i] : i \in 1 .. 5} |->
                         IF Pos(flat, f) = {} THEN <<>>
                         ELSE [j \in 1 .. Cardinality(Pos(flat, f)) |->
                                 LET i == CHOOSE i \in 1 .. Len(flat) : flat[i] = <<f, j>>
                                 IN  IF v[i][2] = IsLog(k, f) THEN v[i][1] ELSE <<"mixed up", 0>>]]
=============================================================================
