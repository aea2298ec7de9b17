------------------------------- MODULE GPKernel -------------------------------
(***************************************************************************)
(* Kernels of gradient-enhanced Gaussian processes.                        *)
(*                                                                         *)
(* The base kernel is k(x, y) = phi(s) with s = SUM theta_i (x_i - y_i)^2. *)
(* Everything else is defined from it: the entries of the kernel matrices  *)
(* are its derivatives with respect to the coordinates of x and y (KD),    *)
(* and the sensitivities of a matrix are the derivatives of its entries    *)
(* with respect to the hyperparameters.  A derivative (D) is the central   *)
(* difference quotient with a step of 1e-16, whose relative error is of    *)
(* the order of 1e-30.                                                     *)
(*                                                                         *)
(* KD costs too much for the matrices of a trace, hence KEntry is the same *)
(* derivative with the derivatives of phi in closed form; MC_Kernel checks *)
(* with TLC that both agree for all kernels, orders and coordinates.       *)
(***************************************************************************)
EXTENDS RealArith

Step  == RDiv(1, RPow(10, 16))

Phi(kern, al, s) ==
    CASE kern = "SqExp" -> RExp(RNeg(s))
      [] kern = "Ma5f2" -> LET nu == RSqrt(RMul(5, s))
                           IN  RMul(RAdd(RAdd(1, nu), RDiv(RSq(nu), 3)), RExp(RNeg(nu)))
      [] kern = "RatQu" -> RPow(RAdd(1, RDiv(s, al)), RNeg(al))

\* s for the points x and y
SqDist(x, y, th) == RSum([i \in 1 .. Len(th) |-> RMul(th[i], RSq(RSub(x[i], y[i])))])

K0(kern, al, th, x, y) == Phi(kern, al, SqDist(x, y, th))

\* Move x by c steps in direction i
Move(x, i, c) == [x EXCEPT ![i] = RAdd(@, RMul(c, Step))]

\* Derivative of f along the coordinate i of its argument, at x
D(f(_), x, i) == RDiv(RSub(f(Move(x, i, 1)), f(Move(x, i, -1))), RMul(2, Step))
\* The same when f is a vector or a matrix
DVec(f(_), x, i) == VScale(RDiv(1, RMul(2, Step)), VSub(f(Move(x, i, 1)), f(Move(x, i, -1))))
DMat(f(_), x, i) == LET p == f(Move(x, i, 1))
                        m == f(Move(x, i, -1))
                    IN  RSeq([a \in 1 .. Len(p) |-> VScale(RDiv(1, RMul(2, Step)), VSub(p[a], m[a]))])

\* dx is a sequence of coordinates to differentiate in the first argument, dy in the second
RECURSIVE KD(_, _, _, _, _, _, _)
KD(kern, al, th, x, y, dx, dy) ==
    IF dx # <<>> THEN D(LAMBDA z : KD(kern, al, th, z, y, Tail(dx), dy), x, Head(dx))
    ELSE IF dy # <<>> THEN D(LAMBDA z : KD(kern, al, th, x, z, dx, Tail(dy)), y, Head(dy))
    ELSE K0(kern, al, th, x, y)

(***************************************************************************)
(* Closed form: <<phi, phi', phi'', phi'''>> at s, and the chain rule.     *)
(***************************************************************************)
Sqrt5 == RSqrt(5)
Phis(kern, al, s) ==
    CASE kern = "SqExp" -> LET e == RExp(RNeg(s)) IN <<e, RNeg(e), e, RNeg(e)>>
      [] kern = "Ma5f2" ->
            LET n0 == RSqrt(s)
                nu == RMul(Sqrt5, n0)
                e  == RExp(RNeg(nu))
            IN  << RMul(RAdd(RAdd(1, nu), RDiv(RSq(nu), 3)), e),
                   RMul(RMul(RNeg(RDiv(5, 6)), RAdd(1, nu)), e),
                   RMul(RDiv(25, 12), e),
                   IF RLe(n0, 0) THEN R(0) \* multiplies a product of three differences, which is 0
                   ELSE RNeg(RDiv(RMul(RMul(25, Sqrt5), e), RMul(24, n0))) >>
      [] kern = "RatQu" ->
            LET B  == RAdd(1, RDiv(s, al))
                k  == RPow(B, RNeg(al))
                k1 == RDiv(k, B)
                k2 == RDiv(k1, B)
                a1 == RAdd(1, RDiv(1, al))
                a2 == RAdd(1, RDiv(2, al))
            IN  <<k, RNeg(k1), RMul(a1, k2), RNeg(RMul(RMul(a1, a2), RDiv(k2, B)))>>

\* p = Phis at the distance of x and y, u[i] = 2 theta_i (x_i - y_i), t2[i] = 2 theta_i;
\* dx as in KD, cy is the coordinate for the second argument (0 for none)
KEntry(p, u, t2, dx, cy) ==
    LET dlt(i, j) == IF i = j THEN t2[i] ELSE 0
    IN  CASE dx = <<>> /\ cy = 0  -> p[1]
          [] dx = <<>> /\ cy # 0  -> RNeg(RMul(p[2], u[cy]))
          [] Len(dx) = 1 /\ cy = 0 -> RMul(p[2], u[dx[1]])
          [] Len(dx) = 1 /\ cy # 0 ->
                RNeg(RAdd(RMul(p[3], RMul(u[dx[1]], u[cy])), RMul(p[2], dlt(dx[1], cy))))
          [] Len(dx) = 2 /\ cy = 0 ->
                RAdd(RMul(p[3], RMul(u[dx[1]], u[dx[2]])), RMul(p[2], dlt(dx[1], dx[2])))
          [] Len(dx) = 2 /\ cy # 0 ->
                RNeg(RAdd(RMul(p[4], RMul(u[dx[1]], RMul(u[dx[2]], u[cy]))),
                          RMul(p[3], RSum(<<RMul(dlt(dx[1], dx[2]), u[cy]),
                                            RMul(dlt(dx[1], cy), u[dx[2]]),
                                            RMul(dlt(dx[2], cy), u[dx[1]])>>))))

(***************************************************************************)
(* The data of a GP: function values at all points, then the derivatives   *)
(* along coordinate 1 at the points with a gradient, then along            *)
(* coordinate 2, ...  A datum is <<point index, coordinate>>, with         *)
(* coordinate 0 for a value.                                               *)
(***************************************************************************)
SelIdx(mask) == LET RECURSIVE F(_)
                    F(i) == IF i = 0 THEN <<>> ELSE IF mask[i] THEN Append(F(i - 1), i) ELSE F(i - 1)
                IN  F(Len(mask))
DataIdx(n, mask, dim) ==
    LET g == SelIdx(mask)
    IN  [k \in 1 .. (n + dim * Len(g)) |->
            IF k <= n THEN <<k, 0>>
            ELSE <<g[((k - n - 1) % Len(g)) + 1], ((k - n - 1) \div Len(g)) + 1>>]

CoordSeq(c) == IF c = 0 THEN <<>> ELSE <<c>>

PhisTab(kern, al, th, X, Y) ==
    RSeq([i \in 1 .. Len(X) |-> [j \in 1 .. Len(Y) |-> Phis(kern, al, SqDist(X[i], Y[j], th))]])
UTab(th, X, Y) ==
    RSeq([i \in 1 .. Len(X) |-> [j \in 1 .. Len(Y) |->
            [c \in 1 .. Len(th) |-> RMul(RMul(2, th[c]), RSub(X[i][c], Y[j][c]))]]])

\* Entries for the data ix of the points X and the data iy of the points Y, with the
\* additional derivatives along dx at X
KernTab(kern, al, th, X, ix, Y, iy, dx) ==
    LET P  == PhisTab(kern, al, th, X, Y)
        U  == UTab(th, X, Y)
        t2 == RSeq([c \in 1 .. Len(th) |-> RMul(2, th[c])])
    IN  RSeq([a \in 1 .. Len(ix) |-> [b \in 1 .. Len(iy) |->
            KEntry(P[ix[a][1]][iy[b][1]], U[ix[a][1]][iy[b][1]], t2,
                   dx \o CoordSeq(ix[a][2]), iy[b][2])]])

\* The (gradient-enhanced) kernel matrix between the points X (mask mX) and Y (mask mY)
KernMat(kern, al, th, X, mX, Y, mY) ==
    KernTab(kern, al, th, X, DataIdx(Len(X), mX, Len(th)), Y, DataIdx(Len(Y), mY, Len(th)), <<>>)

NoGrad(n)  == [i \in 1 .. n |-> FALSE]
AllGrad(n) == [i \in 1 .. n |-> TRUE]

\* Second derivatives with respect to the points X of the kernel between X and the data of Y:
\* entry [k][(i - 1) Len(X) + a][b] is d2/dx_k dx_i for point a of X and datum b of Y
KernHessX(kern, al, th, X, Y, mY) ==
    LET dim == Len(th)
        nx  == Len(X)
        ix  == DataIdx(nx, NoGrad(nx), dim)
        iy  == DataIdx(Len(Y), mY, dim)
        T(k, i) == KernTab(kern, al, th, X, ix, Y, iy, <<k, i>>)
        Rows(k) == LET RECURSIVE F(_)
                       F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o T(k, i)
                   IN  F(dim)
    IN  [k \in 1 .. dim |-> Rows(k)]

\* Sensitivities of the kernel matrix of X: [i] is the derivative with respect to theta_i
KernGradTheta(kern, al, th, X, mX) ==
    [i \in 1 .. Len(th) |-> DMat(LAMBDA t : KernMat(kern, al, t, X, mX, X, mX), RSeq(th), i)]
KernGradAlpha(kern, al, th, X, mX) ==
    << DMat(LAMBDA a : KernMat(kern, a[1], th, X, mX, X, mX), RSeq(<<al>>), 1) >>

\* Preconditioner: square roots of the diagonal of the kernel matrix
Gamma(kern, th, i) == RSqrt(KEntry(Phis(kern, 1, R(0)), [c \in 1 .. Len(th) |-> R(0)],
                                   [c \in 1 .. Len(th) |-> RMul(2, th[c])], <<i>>, i))
PreconVec(kern, th, n, ng) ==
    RSeq([k \in 1 .. (n + ng * Len(th)) |-> IF k <= n THEN 1 ELSE Gamma(kern, th, ((k - n - 1) \div ng) + 1)])
\* entry [k][i] is the derivative of element k with respect to theta_i
PreconGrad(kern, th, n, ng) ==
    LET dv(i) == DVec(LAMBDA t : PreconVec(kern, t, n, ng), RSeq(th), i)
        dd    == [i \in 1 .. Len(th) |-> RSeq(dv(i))]
    IN  [k \in 1 .. (n + ng * Len(th)) |-> [i \in 1 .. Len(th) |-> dd[i][k]]]
=============================================================================
