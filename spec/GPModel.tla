------------------------------- MODULE GPModel --------------------------------
(***************************************************************************)
(* What a Gaussian process is, given its configuration, data and           *)
(* hyperparameters: noise, nugget, covariance matrix, closed-form          *)
(* hyperparameters, marginal log-likelihood and predictions.               *)
(*                                                                         *)
(* Configuration c: [kern, dim, ug (gradients are used), wc (method for    *)
(*   the condition number), etaset, etadflt, etaconst, target (largest     *)
(*   condition number to aim at), vdflt (distance for dflt_vmin/dflt_vmax),*)
(*   vrescale (distance for rescale_eta_vary), pnlt, p1, p2, plb]          *)
(* Data d: [x, f, ksf, sf, g, ksg, sg, mask]: points, values, are the      *)
(*   standard deviations of the values known and which, gradients at the   *)
(*   points with mask TRUE, and the same for their standard deviations     *)
(* Hyperparameters h: [beta, theta, alpha, varK, vf, vg] ("none" if absent)*)
(***************************************************************************)
EXTENDS GPKernel

Alpha(h) == IF h.alpha = "none" THEN "1" ELSE h.alpha
IsScaled(c) == c.wc \in {"rescale_origin", "rescale_eta_vary", "dflt_vmin", "dflt_vmax"}
N(d)   == Len(d.f)
Last(v) == v[Len(v)]
NData(d) == N(d) + Len(d.g) * Len(d.x[1])

MinSeq(v) == LET RECURSIVE F(_)
                 F(i) == IF i = 1 THEN R(v[1]) ELSE RMin(F(i - 1), v[i])
             IN  F(Len(v))
MaxSeq(v) == LET RECURSIVE F(_)
                 F(i) == IF i = 1 THEN R(v[1]) ELSE RMax(F(i - 1), v[i])
             IN  F(Len(v))

(***************************************************************************)
(* Distances between points                                                *)
(***************************************************************************)
Dist(x, y) == RSqrt(RSum([i \in 1 .. Len(x) |-> RSq(RSub(x[i], y[i]))]))
PairDists(X) == LET RECURSIVE F(_, _)
                    F(i, j) == IF i > Len(X) THEN <<>>
                               ELSE IF j > Len(X) THEN F(i + 1, i + 2)
                               ELSE <<Dist(X[i], X[j])>> \o F(i, j + 1)
                IN  F(1, 2)

(***************************************************************************)
(* Scaling of the data (methods that rescale the data).  xs is the vector  *)
(* that scales x; the last point is the origin; the values are scaled such *)
(* that their range is 100 unless there is only one.                       *)
(***************************************************************************)
VreqOrigin(n, dim) ==
    IF n = 1 THEN R(1)
    ELSE LET ds == RMul(2, RSqrt(dim))
             st == RSqrt(RAdd(4, RMul(RMul(2, RExp(2)),
                              RLn(RDiv(RMul(n - 1, RAdd(1, ds)), 2)))))
         IN  RMin(RDiv(RAdd(2, st), RExp(1)), ds)

DistSet(c, n) == CASE c.wc = "rescale_origin"   -> VreqOrigin(n, c.dim)
                   [] c.wc = "rescale_eta_vary" -> R(c.vrescale)
                   [] c.wc \in {"dflt_vmin", "dflt_vmax"} -> R(c.vdflt)

\* xs in the direction of v that satisfies the method for the data
XsFor(c, d, v) ==
    IF N(d) = 1 THEN v
    ELSE LET X  == RSeq([i \in 1 .. N(d) |-> [k \in 1 .. c.dim |-> RMul(d.x[i][k], v[k])]])
             p  == PairDists(X)
             q  == IF c.wc = "dflt_vmax" THEN MaxSeq(p) ELSE MinSeq(p)
         IN  VScale(RDiv(DistSet(c, N(d)), q), v)
InitXs(c, d) == IF IsScaled(c) THEN XsFor(c, d, [i \in 1 .. c.dim |-> R(1)]) ELSE [i \in 1 .. c.dim |-> R(1)]

ObjScale(c, d) == IF ~IsScaled(c) \/ N(d) = 1 THEN R(1)
                  ELSE RDiv(100, RMax("1e-20", RSub(MaxSeq(d.f), MinSeq(d.f))))
ObjShift(c, d) == IF IsScaled(c) THEN Last(d.f) ELSE R(0)
XShift(c, d)   == IF IsScaled(c) THEN Last(d.x) ELSE [i \in 1 .. c.dim |-> R(0)]

ScaleX(c, d, xs, x) == LET sh == XShift(c, d)
                       IN  RSeq([i \in 1 .. c.dim |-> RMul(RSub(x[i], sh[i]), xs[i])])

\* The data in the coordinates that the kernel sees
Scaled(c, d, xs) ==
    IF ~IsScaled(c) THEN d
    ELSE LET os == ObjScale(c, d)
             G(v) == RSeq([i \in 1 .. Len(v) |-> [k \in 1 .. c.dim |-> RDiv(RMul(v[i][k], os), xs[k])]])
         IN  [d EXCEPT !.x  = RSeq([i \in 1 .. N(d) |-> ScaleX(c, d, xs, d.x[i])]),
                       !.f  = RSeq([i \in 1 .. N(d) |-> RMul(RSub(d.f[i], ObjShift(c, d)), os)]),
                       !.sf = RSeq(VScale(os, d.sf)),
                       !.g  = G(d.g),
                       !.sg = G(d.sg)]

(***************************************************************************)
(* Noise.  A standard deviation that is known gives the variance of the    *)
(* noise of its datum; otherwise it is a hyperparameter.  The data is      *)
(* noise free when everything is known and below 1e-10.                    *)
(***************************************************************************)
ZeroF(d) == d.ksf /\ RLt(MaxAbs(d.sf), "1e-10")
ZeroG(c, d) == ~c.ug \/ (d.ksg /\ RLt(MaxAbs(d.sg), "1e-10"))
IsNoisy(c, d) == ~(ZeroF(d) /\ ZeroG(c, d))

\* ds: scaled data
NoiseVec(c, d, ds, h) ==
    LET idx == DataIdx(N(d), d.mask, c.dim)
        rank(i) == Len(SelIdx(SubSeq(d.mask, 1, i))) \* row of g for point i
    IN  IF ~IsNoisy(c, d) THEN RSeq([k \in 1 .. Len(idx) |-> 0])
        ELSE RSeq([k \in 1 .. Len(idx) |->
                IF idx[k][2] = 0 THEN (IF d.ksf THEN RSq(ds.sf[idx[k][1]]) ELSE R(h.vf))
                ELSE (IF d.ksg THEN RSq(ds.sg[rank(idx[k][1])][idx[k][2]]) ELSE R(h.vg))])

(***************************************************************************)
(* Nugget                                                                  *)
(***************************************************************************)
\* sum of the off-diagonal entries of a row of the preconditioned matrix, an upper bound
OffDiagBound(kern, n, dim) ==
    CASE kern \in {"SqExp", "RatQu"} ->
            LET s == RSqrt(1 + 4 * dim)
            IN  RMul(RMul(RDiv(n - 1, 2), RAdd(1, s)),
                     RExp(RNeg(RDiv(RSub(1 + 2 * dim, s), 4 * dim))))
      [] kern = "Ma5f2" ->
            LET t == RSqrt(3 * dim)
                a == RDiv(RAdd(RSub(t, 1), RSqrt(RAdd(RAdd(15 * dim, RMul(2, t)), 1))),
                          RMul(2, RAdd(3 * dim, t)))
            IN  RMul(RMul(n - 1,
                     RSum(<<1, RMul(RAdd(dim, t), a), RMul(RMul(dim, RAdd(1, t)), RSq(a))>>)),
                     RExp(RNeg(RMul(t, a))))
EtaBase(c, n) == IF c.etaset = "dflt_eta" THEN R(c.etadflt) ELSE RDiv(n, RSub(c.target, 1))
EtaVreq(c, n, v) ==
    IF n = 1 THEN RDiv(1, RSub(c.target, 1))
    ELSE LET fr == RDiv(RMul(2, RSqrt(c.dim)), v)
         IN  RDiv(RAdd(1, RMul(n - 1, RMul(fr, RExp(RSub(RDiv(1, fr), 1))))), RSub(c.target, 1))
EtaGrad(c, n) ==
    CASE c.etaset = "dflt_eta" -> R(c.etadflt)
      [] c.etaset # "dflt_eta" /\ n = 1 -> EtaBase(c, n)
      [] c.etaset # "dflt_eta" /\ n > 1 /\ c.wc = "precon" ->
            RDiv(RAdd(1, OffDiagBound(c.kern, n, c.dim)), RSub(c.target, 1))
      [] c.etaset # "dflt_eta" /\ n > 1 /\ c.wc \in {"rescale_origin", "rescale_eta_vary"} ->
            EtaVreq(c, n, VreqOrigin(n, c.dim))
      [] OTHER -> IF c.etaset = "Kbase_eta_w_dim" THEN RMul(c.dim + 1, EtaBase(c, n)) ELSE EtaBase(c, n)
Eta(c, n) == IF c.ug THEN EtaGrad(c, n) ELSE EtaBase(c, n)

(***************************************************************************)
(* Matrices.  K is the kernel matrix and A the regularized covariance      *)
(* matrix divided by the variance varK of the kernel:                      *)
(*   A = K + N / varK + eta I          without preconditioning             *)
(*   A = (K + N / varK) + eta diag(K + N / varK)   with preconditioning,   *)
(* the latter being P (C + eta I) P for the correlation matrix C.          *)
(***************************************************************************)
KMat(c, d, ds, h) == KernMat(c.kern, Alpha(h), RSeq(h.theta), ds.x, d.mask, ds.x, d.mask)
\* the largest sum of the entries of a row, for the nugget that is not constant
EtaOf(c, n, M) == IF c.etaconst THEN Eta(c, n) ELSE RDiv(NormInf(M), RSub(c.target, 1))
\* The correlation matrix
CorMat(M) == LET p == RSeq([i \in 1 .. Len(M) |-> RSqrt(M[i][i])])
             IN  RSeq([i \in 1 .. Len(M) |-> [j \in 1 .. Len(M) |-> RDiv(M[i][j], RMul(p[i], p[j]))]])
PlusDiag(M, v) == RSeq([i \in 1 .. Len(M) |-> [j \in 1 .. Len(M) |-> IF i = j THEN RAdd(M[i][i], v[i]) ELSE M[i][j]]])
WithNoise(c, d, ds, h, vK) == PlusDiag(KMat(c, d, ds, h), VScale(RDiv(1, vK), NoiseVec(c, d, ds, h)))
EtaFor(c, d, ds, h, vK) ==
    IF c.etaconst THEN Eta(c, N(d))
    ELSE IF c.wc = "precon" THEN EtaOf(c, N(d), CorMat(WithNoise(c, d, ds, h, vK)))
    ELSE EtaOf(c, N(d), KMat(c, d, ds, h))
AMat(c, d, ds, h, vK) ==
    LET W == WithNoise(c, d, ds, h, vK)
        e == EtaFor(c, d, ds, h, vK)
    IN  IF c.wc = "precon" THEN PlusDiag(W, [i \in 1 .. Len(W) |-> RMul(e, W[i][i])])
        ELSE PlusDiag(W, [i \in 1 .. Len(W) |-> e])
\* The matrix whose condition number matters
CondMat(c, d, ds, h, vK) ==
    IF c.wc = "precon" THEN LET C == CorMat(WithNoise(c, d, ds, h, vK))
                                e == EtaFor(c, d, ds, h, vK)
                            IN  PlusDiag(C, [i \in 1 .. Len(C) |-> e])
    ELSE AMat(c, d, ds, h, vK)
MScale(s, M) == RSeq([i \in 1 .. Len(M) |-> VScale(s, M[i])])

Cond2(M) == LET e == EigMinMax(M) IN RDiv(e[2], e[1])
FroNorm(M) == RSqrt(RSum([i \in 1 .. Len(M) |-> RDot(M[i], M[i])]))
CondFro(M) == RMul(FroNorm(M), FroNorm(Inverse(M)))
CondEst(M) == RMul(NormInf(M), NormInf(Inverse(M)))

(***************************************************************************)
(* Data vector, mean function and closed-form hyperparameters              *)
(***************************************************************************)
DataVec(c, d, ds) ==
    LET ng == Len(d.g)
        n  == N(d)
    IN  RSeq([k \in 1 .. NData(d) |-> IF k <= n THEN ds.f[k]
                                      ELSE ds.g[((k - n - 1) % ng) + 1][((k - n - 1) \div ng) + 1]])
\* basis of the mean function (a constant) and its derivatives
Basis(d) == RSeq([k \in 1 .. NData(d) |-> IF k <= N(d) THEN 1 ELSE 0])
Residual(c, d, ds, beta) == LET y == DataVec(c, d, ds)
                                H == Basis(d)
                            IN  RSeq(VSub(y, VScale(beta, H)))
BetaGls(A, y, H) == LET w == Solve(A, H) IN RDiv(RDot(w, y), RDot(w, H))

Var(v) == LET m == RDiv(RSum(v), Len(v)) IN RDiv(RSum([i \in 1 .. Len(v) |-> RSq(RSub(v[i], m))]), Len(v))
Penalty(c, ds, vK) ==
    IF ~c.pnlt THEN R(0)
    ELSE LET v == RMax(Var(ds.f), c.plb)
             m == RMax(RSub(vK, RMul(c.p2, v)), 0)
         IN  RMul(RMul(c.p1, v), RSq(m))

\* Everything about the marginal likelihood: <<ln lkd, beta, varK>>; with noisy data varK is h.varK
Lkd(c, d, ds, h) ==
    LET noisy == IsNoisy(c, d)
        vK0   == IF noisy THEN R(h.varK) ELSE R(1)
        A     == AMat(c, d, ds, h, vK0)
        y     == DataVec(c, d, ds)
        H     == Basis(d)
        beta  == BetaGls(A, y, H)
        r     == RSeq(VSub(y, VScale(beta, H)))
        q     == RDot(r, Solve(A, r))
        n     == Len(y)
        vK    == IF noisy THEN vK0 ELSE RMax(RDiv(q, n), "1e-32")
    IN  IF noisy
        THEN <<RNeg(RHalf(RAdd(RAdd(RMul(n, RLn(vK)), LnDet(A)), RDiv(q, vK)))), beta, vK>>
        ELSE <<RSub(RNeg(RHalf(RAdd(RMul(n, RLn(vK)), LnDet(A)))), Penalty(c, ds, vK)), beta, vK>>

(***************************************************************************)
(* The vector of the hyperparameters that are optimized numerically:       *)
(* theta, alpha (kernel with a hyperparameter, if asked for), varK when    *)
(* the data is noisy, and the variances of the noise that are not known.   *)
(* lg says for which kinds the logarithm with base 10 is optimized.        *)
(***************************************************************************)
HasAlpha(c) == c.kern = "RatQu" /\ c.optalpha
Layout(c, d) ==
    [i \in 1 .. c.dim |-> "theta"]
    \o (IF HasAlpha(c) THEN <<"kernel">> ELSE <<>>)
    \o (IF IsNoisy(c, d) THEN <<"varK">> ELSE <<>>)
    \o (IF ~d.ksf THEN <<"vf">> ELSE <<>>)
    \o (IF c.ug /\ ~d.ksg THEN <<"vg">> ELSE <<>>)
IsLog(c, kind) == CASE kind = "theta" -> c.logth [] kind = "kernel" -> c.logkern [] OTHER -> c.logvar
PosOf(c, d, kind) == LET L == Layout(c, d) IN CHOOSE i \in 1 .. Len(L) : L[i] = kind
HasKind(c, d, kind) == \E i \in 1 .. Len(Layout(c, d)) : Layout(c, d)[i] = kind
\* hyperparameters for the vector v
Decode(c, d, v) ==
    LET L == Layout(c, d)
        val(i) == IF IsLog(c, L[i]) THEN RPow(10, v[i]) ELSE R(v[i])
        get(kind, dflt) == IF HasKind(c, d, kind) THEN val(PosOf(c, d, kind)) ELSE dflt
    IN  [theta |-> RSeq([i \in 1 .. c.dim |-> val(i)]),
         alpha |-> get("kernel", IF c.kern = "RatQu" THEN "2" ELSE "none"),
         varK  |-> get("varK", "none"),
         vf    |-> get("vf", "none"),
         vg    |-> get("vg", "none")]
LkdAt(c, d, ds, v)  == Lkd(c, d, ds, Decode(c, d, v))
CondAt(c, d, ds, v) == LET h == Decode(c, d, v)
                       IN  CondMat(c, d, ds, h, IF IsNoisy(c, d) THEN h.varK ELSE R(1))

(***************************************************************************)
(* Predictions in the units of the data                                    *)
(***************************************************************************)
\* What does not depend on the point: <<scaled data, inverse of A, A^-1 r, condition number>>
Setup(c, d, h, xs) ==
    LET ds == Scaled(c, d, xs)
        A  == AMat(c, d, ds, h, R(h.varK))
        Ai == Inverse(A)
    IN  [ds |-> ds, Ai |-> Ai, w |-> MatVec(Ai, Residual(c, d, ds, h.beta[1])),
         kap |-> RMul(NormInf(CondMat(c, d, ds, h, R(h.varK))), NormInf(Inverse(CondMat(c, d, ds, h, R(h.varK)))))]
\* covariance (divided by varK) of the value at x with the data
KVec(c, d, S, h, xs, x) ==
    KernTab(c.kern, Alpha(h), RSeq(h.theta), <<ScaleX(c, d, xs, x)>>, <<(<<1, 0>>)>>,
            S.ds.x, DataIdx(N(d), d.mask, c.dim), <<>>)[1]
Mu(c, d, S, h, xs, x)  == RAdd(ObjShift(c, d), RDiv(RAdd(h.beta[1], RDot(KVec(c, d, S, h, xs, x), S.w)), ObjScale(c, d)))
\* variance divided by varK: between 0 and 1
Vn(c, d, S, h, xs, x)  == LET k == KVec(c, d, S, h, xs, x) IN RSub(1, RDot(k, MatVec(S.Ai, k)))
Sig(c, d, S, h, xs, x) == RDiv(RSqrt(RMul(h.varK, RMax(0, Vn(c, d, S, h, xs, x)))), ObjScale(c, d))
Sig2(c, d, S, h, xs, x) == RMul(h.varK, Vn(c, d, S, h, xs, x))

GradOf(f(_), x)  == [i \in 1 .. Len(x) |-> D(f, x, i)]
HessOf(f(_), x)  == [i \in 1 .. Len(x) |-> [j \in 1 .. Len(x) |-> D(LAMBDA z : D(f, z, i), x, j)]]
=============================================================================
