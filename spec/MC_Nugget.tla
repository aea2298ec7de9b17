------------------------------ MODULE MC_Nugget ------------------------------
(***************************************************************************)
(* Why the nugget bounds the condition number: the sum of the absolute     *)
(* values of a row of the correlation matrix is at most 1 + OffDiagBound   *)
(* (Gershgorin), so its largest eigenvalue is, too, and with the nugget    *)
(* eta = (1 + OffDiagBound) / (kappa - 1) the ratio of the eigenvalues is  *)
(* at most kappa.  Each state is one pair of points (a relative position   *)
(* u in units of the lengthscales) and the invariant is that its share of  *)
(* any row is at most its share of the bound.                              *)
(***************************************************************************)
EXTENDS GPModel, TLC
CONSTANTS MaxDim, Grid \* relative positions have coordinates k / 4 with |k| <= Grid
VARIABLES kern, al, u
vars == <<kern, al, u>>

\* theta = 1 in all directions; the correlation divides derivatives by Gamma
Th(dim) == [i \in 1 .. dim |-> R(1)]
Pt(v) == [i \in 1 .. Len(v) |-> RDiv(v[i], 4)]
Zero(dim) == [i \in 1 .. dim |-> R(0)]

Corr == LET dim == Len(u)
            M == KernMat(kern, al, Th(dim), <<Pt(u)>>, <<TRUE>>, <<Zero(dim)>>, <<TRUE>>)
            p == PreconVec(kern, Th(dim), 1, 1)
        IN  [i \in 1 .. (dim + 1) |-> [j \in 1 .. (dim + 1) |-> RDiv(M[i][j], RMul(p[i], p[j]))]]
RowSum(M, i) == RSum([j \in 1 .. Len(M[i]) |-> RAbs(M[i][j])])

\* n = 2: the bound for one other point
InvGrad == LET M == RSeq(Corr) b == OffDiagBound(kern, 2, Len(u))
           IN  \A i \in 1 .. Len(M) : RLe(RowSum(M, i), RAdd(b, "1e-30"))
\* values only: the kernel is at most 1, hence n is a bound of the eigenvalues
InvBase == RLe(K0(kern, al, Th(Len(u)), Pt(u), Zero(Len(u))), 1)
\* the bound is the one that the nugget implies
InvNugget ==
    LET c == [kern |-> kern, dim |-> Len(u), ug |-> TRUE, wc |-> "precon", etaset |-> "Kbase_eta", target |-> "1e10", etaconst |-> TRUE]
    IN  \A n \in 1 .. 4 :
            LET e == EtaGrad(c, n)
                lmax == RAdd(1, OffDiagBound(kern, n, Len(u)))
            IN  /\ n > 1 => RLe(RDiv(RAdd(lmax, e), e), RAdd(c.target, "1e-20"))
                /\ RLe(EtaBase(c, n), RMul(e, "1.0000001"))

Init == /\ kern \in {"SqExp", "Ma5f2", "RatQu"}
        /\ al \in (IF kern = "RatQu" THEN {"0.1", "0.5", "1", "2", "10", "1000"} ELSE {"1"})
        /\ u \in UNION {[1 .. d -> {0}] : d \in 1 .. MaxDim}
\* move one coordinate outwards (the kernel is symmetric in each coordinate and under permutations)
Next == /\ \E i \in 1 .. Len(u) : u[i] < Grid /\ (IF i = 1 THEN TRUE ELSE u[i] < u[i - 1]) /\ u' = [u EXCEPT ![i] = @ + 1]
        /\ UNCHANGED <<kern, al>>
Spec == Init /\ [][Next]_vars
=============================================================================
