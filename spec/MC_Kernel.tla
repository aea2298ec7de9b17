------------------------------ MODULE MC_Kernel ------------------------------
(***************************************************************************)
(* Lemmas about GPKernel, checked by TLC for a grid of points, theta,      *)
(* alpha and orders of differentiation:                                    *)
(*   - the entries in closed form are the derivatives of the kernel;       *)
(*   - a kernel matrix is symmetric when both sets of data are the same,   *)
(*     has a unit diagonal for the values and the squared preconditioner   *)
(*     as its diagonal;                                                    *)
(*   - ignoring a gradient gives the matrix without its row and column.    *)
(* Each state is one case, and the invariants are the lemmas.              *)
(***************************************************************************)
EXTENDS GPKernel, FiniteSets
CONSTANTS Coords, Dim, Alphas, Thetas
VARIABLES kern, al, th, x, y, dx, cy
vars == <<kern, al, th, x, y, dx, cy>>

Points == [1 .. Dim -> Coords]
Seqs2  == {<<>>} \cup {<<i>> : i \in 1 .. Dim} \cup {<<i, j>> : i \in 1 .. Dim, j \in 1 .. Dim}

Init == /\ kern \in {"SqExp", "Ma5f2", "RatQu"}
        /\ al \in IF kern = "RatQu" THEN Alphas ELSE {"1"}
        /\ th \in [1 .. Dim -> Thetas]
        /\ x \in Points /\ y = [i \in 1 .. Dim |-> "0.25"]
        /\ dx = <<>> /\ cy = 0
\* The order of differentiation grows by one derivative per step
DiffX(i) == Len(dx) < 2 /\ dx' = Append(dx, i) /\ UNCHANGED <<kern, al, th, x, y, cy>>
DiffY(i) == cy = 0 /\ cy' = i /\ UNCHANGED <<kern, al, th, x, y, dx>>
Next == \E i \in 1 .. Dim : DiffX(i) \/ DiffY(i)
Spec == Init /\ [][Next]_vars

ClosedForm ==
    LET u  == [c \in 1 .. Dim |-> RMul(RMul(2, th[c]), RSub(x[c], y[c]))]
        t2 == [c \in 1 .. Dim |-> RMul(2, th[c])]
    IN  CloseR(KEntry(Phis(kern, al, SqDist(x, y, th)), u, t2, dx, cy),
               KD(kern, al, th, RSeq(x), RSeq(y), dx, CoordSeq(cy)), "1e-13", "1e-13")

Xs == <<x, y, [i \in 1 .. Dim |-> "-0.5"]>>
Symmetric ==
    dx = <<>> /\ cy = 0 =>
        LET m == <<TRUE, FALSE, TRUE>>
            M == KernMat(kern, al, th, Xs, m, Xs, m)
            T == [a \in 1 .. Len(M) |-> [b \in 1 .. Len(M) |-> M[b][a]]]
            p == PreconVec(kern, th, 3, 2)
        IN  /\ Close(T, M, 0, "1e-50")
            /\ Close([a \in 1 .. Len(M) |-> M[a][a]], [a \in 1 .. Len(M) |-> RSq(p[a])], "1e-40", "1e-50")
Masked ==
    dx = <<>> /\ cy = 0 =>
        LET full == KernMat(kern, al, th, Xs, AllGrad(3), Xs, AllGrad(3))
            m    == <<FALSE, TRUE, TRUE>>
            part == KernMat(kern, al, th, Xs, m, Xs, m)
            keep == SelIdx([k \in 1 .. Len(full) |-> k <= 3 \/ m[((k - 4) % 3) + 1]])
        IN  Close(part, [a \in 1 .. Len(keep) |-> [b \in 1 .. Len(keep) |-> full[keep[a]][keep[b]]]], 0, "1e-50")
=============================================================================
