------------------------------- MODULE Scaling -------------------------------
(***************************************************************************)
(* Scaling of data.  A scaling p is a record:                              *)
(*   sx, cx   shift and scale of each coordinate of a point                *)
(*   so, co   shift and scale of the values                                *)
(*   sn, cn   shift of each nonlinear constraint, common scale             *)
(* Everything else follows: a point x becomes (x - sx) cx, a value f       *)
(* becomes (f - so) co, a derivative is multiplied with co and divided by  *)
(* cx once for every coordinate it was taken for.                          *)
(***************************************************************************)
EXTENDS GPModel
Dim(p) == Len(p.cx)
MapX(p, x)  == [i \in 1 .. Dim(p) |-> RMul(RSub(x[i], p.sx[i]), p.cx[i])]
BackX(p, z) == [i \in 1 .. Dim(p) |-> RAdd(RDiv(z[i], p.cx[i]), p.sx[i])]
MapV(s, c, f)  == RMul(RSub(f, s), c)
BackV(s, c, f) == RAdd(RDiv(f, c), s)
\* gradients and Hessians for the scale c of the values
MapG(p, c, g)  == [i \in 1 .. Dim(p) |-> RDiv(RMul(g[i], c), p.cx[i])]
BackG(p, c, g) == [i \in 1 .. Dim(p) |-> RDiv(RMul(g[i], p.cx[i]), c)]
MapH(p, c, H)  == [i \in 1 .. Dim(p) |-> [j \in 1 .. Dim(p) |-> RDiv(RMul(H[i][j], c), RMul(p.cx[i], p.cx[j]))]]
BackH(p, c, H) == [i \in 1 .. Dim(p) |-> [j \in 1 .. Dim(p) |-> RDiv(RMul(H[i][j], RMul(p.cx[i], p.cx[j])), c)]]
\* a x >= lb, in scaled coordinates
MapA(p, a)      == [i \in 1 .. Dim(p) |-> RDiv(a[i], p.cx[i])]
MapB(p, a, lb)  == RSub(lb, RDot(a, p.sx))
Mean(v) == RDiv(RSum(v), Len(v))

(***************************************************************************)
(* Scalings that the code chooses.                                         *)
(*   X the points, ib the best one                                         *)
(***************************************************************************)
\* the scale in the direction of v for the method; ds: distance that was asked for
XScale(X, sx, method, ds, v) ==
    IF Len(X) = 1 \/ method = "none" THEN v
    ELSE LET Y == RSeq([i \in 1 .. Len(X) |-> [k \in 1 .. Len(v) |-> RMul(X[i][k], v[k])]])
             W == PairDists(Y)
             q == IF method = "set_vmax" THEN MaxSeq(W) ELSE RMax("1e-14", MinSeq(W))
         IN  VScale(RDiv(IF ds = "none" THEN R(1) ELSE R(ds), q), v)
FScale(f, method) == IF Len(f) = 1 \/ method = "none" THEN R(1) ELSE RDiv(100, RMax("1e-20", RSub(MaxSeq(f), MinSeq(f))))
=============================================================================
