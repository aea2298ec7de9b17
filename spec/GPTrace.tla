------------------------------- MODULE GPTrace --------------------------------
(***************************************************************************)
(* Trace specification for what a Gaussian process computes (GPModel).     *)
(* The state is the configuration and data that the events refer to: the   *)
(* event "Case" sets them.  The other events are calls with their          *)
(* arguments and results, and the clauses say what the results have to be. *)
(* e.out is "ok" if the call returned, "exc" if it raised an exception.    *)
(***************************************************************************)
EXTENDS Trace, Figures
VARIABLES l, cur
vars == <<l, cur>>

Ev(i) == Trace[i]
C  == Ev(cur).c
Dt == Ev(cur).d
Xs == IF IsScaled(C) THEN Ev(cur).xs ELSE [i \in 1 .. C.dim |-> 1]
Ds == Scaled(C, Dt, Xs)

(***************************************************************************)
(* Kernel matrices, for arbitrary points: C.x (mask C.mx) and C.y (C.my)   *)
(***************************************************************************)
Tol(M) == RMul("1e-11", RMax("1e-30", MaxAbs(M)))
KernelClauses(e) ==
    LET th == RSeq(e.theta)
        al == IF e.alpha = "none" THEN "1" ELSE e.alpha
        same(exp) == Close(e.val, exp, "1e-9", Tol(exp))
    IN  << <<"kernel-outcome", e.out = "ok">>,
           <<"kernel-" \o e.fn, e.out = "ok" =>
                CASE e.fn = "Kern"    -> same(KernMat(e.kern, al, th, e.x, e.mx, e.y, e.my))
                  [] e.fn = "HessX"   -> same(KernHessX(e.kern, al, th, e.x, e.y, e.my))
                  [] e.fn = "GradTh"  -> same(KernGradTheta(e.kern, al, th, e.x, e.mx))
                  [] e.fn = "GradAl"  -> \* a difference of terms of the size of the entries
                        LET A == KernGradAlpha(e.kern, al, th, e.x, e.mx)
                        IN  Close(e.val, A, "1e-9", RAdd(Tol(A), RMul("1e-13", MaxAbs(KernMat(e.kern, al, th, e.x, e.mx, e.x, e.mx)))))
                  [] e.fn = "PreconVec"  -> same(PreconVec(e.kern, th, e.n, e.ng))
                  [] e.fn = "PreconInv"  -> LET p == PreconVec(e.kern, th, e.n, e.ng)
                                            IN  same([k \in 1 .. Len(p) |-> RDiv(1, p[k])])
                  [] e.fn = "PreconGrad" -> same(PreconGrad(e.kern, th, e.n, e.ng))
                  [] e.fn = "Th2Gam" -> same([i \in 1 .. Len(th) |-> Gamma(e.kern, th, i)])
                  [] e.fn = "Gam2Th" -> same(th)>> >>

(***************************************************************************)
(* Noise and nugget                                                        *)
(***************************************************************************)
NoiseClauses(e) ==
    << <<"noise-outcome", e.out = "ok">>,
       <<"noise-vec", e.out = "ok" => Close(e.val, NoiseVec(C, Dt, Ds, e.h), "1e-9", "1e-25")>>,
       <<"noise-flag", e.out = "ok" => e.noisy = IsNoisy(C, Dt)>> >>
NuggetClauses(e) ==
    << <<"nugget-outcome", e.out = "ok">>,
       <<"nugget-base", e.out = "ok" => CloseR(e.base, EtaBase(C, e.n), "1e-10", 0)>>,
       <<"nugget-grad", e.out = "ok" /\ C.ug => CloseR(e.grad, EtaGrad(C, e.n), "1e-10", 0)>> >>
VreqClauses(e) ==
    << <<"vreq-outcome", e.out = "ok">>,
       <<"vreq", e.out = "ok" => CloseR(e.v, VreqOrigin(e.n, C.dim), "1e-10", 0)>>,
       <<"vreq-nugget", e.out = "ok" => CloseR(e.eta, EtaVreq(C, e.n, IF e.vin = "none" THEN VreqOrigin(e.n, C.dim) ELSE R(e.vin)), "1e-10", 0)>> >>

(***************************************************************************)
(* Covariance matrix, its factorization and its condition number           *)
(***************************************************************************)
\* The smallest eigenvalue has the rounding error of the largest one
BoundTol(x) == RAdd(x, RMul("3e-15", RMul(NData(Dt), C.target)))
MatClauses(e) ==
    LET noisy == IsNoisy(C, Dt)
        vK == IF e.norm THEN R(e.h.varK) ELSE IF noisy THEN R(e.h.varK) ELSE R(1)
        K == KMat(C, Dt, Ds, e.h)
        A == AMat(C, Dt, Ds, e.h, vK)
        Cov == IF e.norm THEN A ELSE MScale(vK, A)
        ok == e.out = "ok"
    IN  << <<"mat-outcome", ok>>,
           <<"mat-kern", ok => Close(e.kern, K, "1e-9", Tol(K))>>,
           <<"mat-cov", ok => Close(e.cov, Cov, "1e-9", Tol(Cov))>>,
           <<"mat-cov-diag", ok => Close([i \in 1 .. Len(e.cov) |-> e.cov[i][i]], [i \in 1 .. Len(Cov) |-> Cov[i][i]], "1e-12", 0)>>,
           <<"mat-eta", ok => CloseR(e.eta, EtaFor(C, Dt, Ds, e.h, vK), "1e-9", 0)>>,
           <<"mat-factor", ok => ~IsNone(e.fac) /\ LET M == MatMul(e.fac, [i \in 1 .. Len(e.fac) |-> [j \in 1 .. Len(e.fac) |-> e.fac[j][i]]])
                                                   IN  Close(M, Cov, "1e-9", Tol(Cov))>>,
           <<"mat-cond", ok /\ ~IsNone(e.cond) =>
                LET kap == IF C.norm = "fro" THEN CondFro(CondMat(C, Dt, Ds, e.h, vK)) ELSE Cond2(CondMat(C, Dt, Ds, e.h, vK))
                IN  CloseR(e.cond, kap, RAdd("1e-9", RMul("1e-14", kap)), 0)>>,
           <<"mat-cond-bound", ok /\ ~IsNone(e.cond) /\ e.bound =>
                RLe(e.cond, RMul(C.target, BoundTol("1.0001")))>> >>
\* Only the guarantee, for hyperparameters so extreme that nothing else can be compared
BoundClauses(e) ==
    << <<"bound-outcome", e.out = "ok">>,
       <<"bound-factor", e.out = "ok" => e.hasfac>>,
       <<"bound-residual", e.out = "ok" /\ e.hasfac => RLe(e.res, "1e-10")>>,
       <<"mat-cond-bound", e.out = "ok" => RLe(e.cond, RMul(C.target, BoundTol("1.001"))) /\ RLe(e.cond2, RMul(C.target, BoundTol("1.001")))>> >>

(***************************************************************************)
(* Marginal log-likelihood                                                 *)
(***************************************************************************)
\* e.v is the vector of hyperparameters that are optimized, or e.h is given
LkdClauses(e) ==
    LET L  == Lkd(C, Dt, Ds, e.h)
        vK == IF IsNoisy(C, Dt) THEN R(e.h.varK) ELSE R(1)
        kap == CondEst(CondMat(C, Dt, Ds, e.h, vK))
        rt == RAdd("1e-9", RMul("1e-14", kap))
        ok == e.out = "ok"
        ys == RAdd(MaxAbs(DataVec(C, Dt, Ds)), "1e-3")
    IN  << <<"lkd-outcome", ok /\ e.good>>,
           <<"lkd-value", ok => CloseR(e.lkd, L[1], rt, RMul(rt, NData(Dt)))>>,
           <<"lkd-beta", ok => Close(e.beta, <<L[2]>>, rt, RMul(rt, ys))>>,
           <<"lkd-varK", ok /\ ~IsNoisy(C, Dt) => CloseR(e.varK, L[3], RMul(10, rt), "1e-32")>>,
           <<"lkd-cond", ok /\ ~IsNone(e.cond) => CloseR(e.cond, IF C.norm = "fro" THEN CondFro(CondMat(C, Dt, Ds, e.h, vK)) ELSE Cond2(CondMat(C, Dt, Ds, e.h, vK)), rt, 0)>> >>

\* The factorization was made to fail (the linear algebra library raised its error): what is
\* minimized is one of the condition numbers, and the gradient is the derivative of the same.
\* If the failure did not reach the code the likelihood is fine as well
FaultClauses(e) ==
    LET v  == RSeq(e.v)
        h  == Decode(C, Dt, v)
        vK(z) == IF IsNoisy(C, Dt) THEN R(z.varK) ELSE R(1)
        A(z)  == LET y == Decode(C, Dt, z) IN AMat(C, Dt, Ds, y, vK(y))
        kap == RMax(CondEst(CondAt(C, Dt, Ds, v)), CondEst(A(v)))
        rt == RAdd("1e-7", RMul("1e-13", kap))
        K(k, z) == CASE k = 1 -> RNeg(Cond2(A(z)))
                     [] k = 2 -> RNeg(Cond2(CondAt(C, Dt, Ds, z)))
                     [] k = 3 -> RNeg(CondFro(CondAt(C, Dt, Ds, z)))
                     [] k = 4 -> LkdAt(C, Dt, Ds, z)[1]
        ok == e.out = "ok"
        m  == {k \in 1 .. 4 : ok /\ CloseR(e.lkd, K(k, v), rt, RMul(rt, NData(Dt)))}
    IN  << <<"grad-outcome", ok>>,
           <<"grad-value", ok => m # {}>>,
           <<"grad-lkd", (ok /\ m # {}) => \E k \in m :
                LET g == RSeq(GradOf(LAMBDA z : K(k, z), v))
                IN  Close(e.grad, g, RMul(rt, 10), RMul(RMul(rt, 10), RMax(RMax(NData(Dt), IF k < 4 THEN kap ELSE R(0)), MaxAbs(g))))>> >>

\* Gradients of the likelihood and of the condition number with respect to the vector e.v.
\* When the condition number is beyond C.condabs no factorization is attempted: the
\* condition number is then what is minimized
GradClauses(e) == IF e.fault THEN FaultClauses(e) ELSE
    LET v  == RSeq(e.v)
        kap == CondEst(CondAt(C, Dt, Ds, v))
        rt == RAdd("1e-7", RMul("1e-13", kap))
        cnd(z) == IF C.norm = "fro" THEN CondFro(CondAt(C, Dt, Ds, z)) ELSE Cond2(CondAt(C, Dt, Ds, z))
        fail == e.condreq /\ RLt(C.condabs, kap) /\ RLt(C.condabs, cnd(v))
        g  == IF fail THEN VScale(-1, GradOf(cnd, v)) ELSE RSeq(GradOf(LAMBDA z : LkdAt(C, Dt, Ds, z)[1], v))
        cg == RSeq(GradOf(cnd, v))
        ok == e.out = "ok"
    IN  << <<"grad-outcome", ok>>,
           <<"grad-value", ok => IF fail THEN CloseR(e.lkd, RNeg(cnd(v)), rt, 0)
                                 ELSE CloseR(e.lkd, LkdAt(C, Dt, Ds, v)[1], rt, RMul(rt, NData(Dt)))>>,
           <<"grad-lkd", ok => Close(e.grad, g, rt, RMul(RMul(rt, 10), RMax(NData(Dt), MaxAbs(g))))>>,
           <<"grad-condval", ok /\ ~IsNone(e.cond) => CloseR(e.cond, cnd(v), rt, 0)>>,
           <<"grad-cond", ok /\ ~IsNone(e.cgrad) => Close(e.cgrad, cg, RMul(rt, 10), RMul(RMul(rt, 10), RMax(kap, MaxAbs(cg))))>> >>

(***************************************************************************)
(* Predictions                                                             *)
(***************************************************************************)
EvalClauses(e) ==
    LET h  == e.h
        xs == Xs
        St == Setup(C, Dt, h, xs)
        nx == Len(e.x)
        os == ObjScale(C, Dt)
        tv == RAdd("1e-12", RMul(RMul("4e-16", NData(Dt)), St.kap)) \* error of the variance / varK
        x(i)  == RSeq(e.x[i])
        vn(i) == Vn(C, Dt, St, h, xs, x(i))
        vns   == RSeq([i \in 1 .. nx |-> vn(i)])
        mus   == RSeq([i \in 1 .. nx |-> Mu(C, Dt, St, h, xs, x(i))])
        \* scale of the terms whose sum is the mean
        sc    == RDiv(RSum(<<RAbs(h.beta[1]), MaxAbs(Ds.f),
                             MaxSeq([i \in 1 .. nx |-> LET k == KVec(C, Dt, St, h, xs, x(i))
                                                       IN  RSum([a \in 1 .. Len(k) |-> RAbs(RMul(k[a], St.w[a]))])])>>), os)
        rt    == RAdd("1e-10", RMul("1e-15", RMul(NData(Dt), St.kap)))
        tm    == RMul(rt, sc)
        ok    == e.out = "ok"
        vf    == RDiv(R(h.varK), RSq(os))
        \* scale of a derivative with respect to a coordinate
        gs    == MaxSeq([i \in 1 .. C.dim |-> RMul(RMul(4, RSqrt(h.theta[i])), RAbs(xs[i]))])
        tiny(i) == RLe(vns[i], RMul(tv, 10000))
        fmu(z) == Mu(C, Dt, St, h, xs, z)
        fsg(z) == Sig(C, Dt, St, h, xs, z)
        f2(z)  == Sig2(C, Dt, St, h, xs, z)
        rts(i) == RAdd("1e-7", RMul(10, RDiv(tv, vns[i]))) \* relative error of sig and its derivatives
    IN  IF ~ok THEN << <<"eval-outcome", \E i \in 1 .. nx : RLe(vns[i], tv)>> >>
        ELSE << <<"eval-mu", ~IsNone(e.mu) => Close(e.mu, mus, 0, tm)>>,
                <<"eval-sig", ~IsNone(e.sig) =>
                    /\ Len(e.sig) = nx
                    /\ \A i \in 1 .. nx : CloseR(RSq(e.sig[i]), RMul(vf, RMax(0, vns[i])), "1e-9", RMul(vf, tv))>>,
                <<"eval-bounds", ~IsNone(e.sig) =>
                    \A i \in 1 .. nx : RLe(0, e.sig[i]) /\ RLe(RSq(e.sig[i]), RMul(vf, RAdd(1, tv)))>>,
                <<"eval-sig2", ~IsNone(e.sig2) =>
                    /\ Len(e.sig2) = nx
                    /\ \A i \in 1 .. nx : CloseR(e.sig2[i], RMul(h.varK, vns[i]), "1e-9", RMul(h.varK, tv))>>,
                <<"eval-dmu", ~IsNone(e.dmu) =>
                    /\ Len(e.dmu) = nx
                    /\ \A i \in 1 .. nx : Close(e.dmu[i], GradOf(fmu, x(i)), "1e-8", RMul(RMul(10, tm), RAdd(gs, 0)))>>,
                <<"eval-dsig", ~IsNone(e.dsig) =>
                    /\ Len(e.dsig) = nx
                    /\ \A i \in 1 .. nx : tiny(i) \/
                        LET g == RSeq(GradOf(fsg, x(i)))
                        IN  Close(e.dsig[i], g, rts(i), RAdd(RMul(rts(i), MaxAbs(g)), RMul(10, RMul(RMul(gs, fsg(x(i))), RDiv(tv, vns[i])))))>>,
                <<"eval-dsig2", ~IsNone(e.dsig2) =>
                    /\ Len(e.dsig2) = nx
                    /\ \A i \in 1 .. nx : Close(e.dsig2[i], GradOf(f2, x(i)), "1e-8", RMul(RMul(RMul(h.varK, tv), 10), RAdd(gs, 1)))>>,
                <<"eval-d2mu", ~IsNone(e.d2mu) =>
                    /\ Len(e.d2mu) = nx
                    /\ \A i \in 1 .. nx : Close(e.d2mu[i], HessOf(fmu, x(i)), "1e-8", RMul(RMul(100, tm), RSq(gs)))>>,
                <<"eval-d2sig", ~IsNone(e.d2sig) =>
                    /\ Len(e.d2sig) = nx
                    /\ \A i \in 1 .. nx : tiny(i) \/
                        LET g == RSeq(HessOf(fsg, x(i)))
                        IN  Close(e.d2sig[i], g, rts(i), RAdd(RMul(RMul(100, rts(i)), MaxAbs(g)), RMul(100, RMul(RMul(RSq(gs), fsg(x(i))), RDiv(tv, vns[i])))))>> >>

\* The prediction at the data: datum e.i (a point); nu is the weight of the nugget there
InterpClauses(e) ==
    LET h  == e.h
        xs == Xs
        St == Setup(C, Dt, h, xs)
        os == ObjScale(C, Dt)
        n  == N(Dt)
        vf == RDiv(R(h.varK), RSq(os))
        tv == RAdd("1e-12", RMul(RMul("4e-16", NData(Dt)), St.kap))
        K  == KMat(C, Dt, Ds, h)
        e0 == EtaFor(C, Dt, Ds, h, R(h.varK))
        g(j) == IF C.wc = "precon" THEN K[j][j] ELSE R(1)
        rt == RAdd("1e-10", RMul("1e-15", RMul(NData(Dt), St.kap)))
        sc == RDiv(RSum(<<RAbs(h.beta[1]), MaxAbs(Ds.f), RMul(Len(St.w), RMul(MaxAbs(St.w), MaxAbs(K)))>>), os)
        at == RMul(rt, sc)
        ng == Len(Dt.g)
        rank == Len(SelIdx(SubSeq(Dt.mask, 1, e.i)))
        dat(k) == n + (k - 1) * ng + rank     \* position of the derivative along k
        off(j) == RDiv(RMul(RMul("1.01", e0), RMul(g(j), RAbs(St.w[j]))), os)
    IN  << <<"interp-outcome", e.out = "ok" \/ RLe(e0, tv)>>,
           <<"interp-mu", e.out = "ok" => CloseR(e.mu, Dt.f[e.i], 0, RAdd(off(e.i), at))>>,
           <<"interp-sig", e.out = "ok" => RLe(RSq(e.sig), RMul(vf, RAdd(RMul("1.01", e0), tv)))>>,
           <<"interp-dmu", e.out = "ok" /\ Dt.mask[e.i] =>
                \A k \in 1 .. C.dim : CloseR(e.dmu[k], Dt.g[rank][k], 0,
                    RMul(xs[k], RAdd(off(dat(k)), RMul(RMul(at, 10), RAdd(1, RMul(4, RSqrt(h.theta[k])))))))>> >>
\* Far from all data
FarClauses(e) ==
    LET os == ObjScale(C, Dt)
        vf == RDiv(R(e.h.varK), RSq(os))
        pr == RAdd(ObjShift(C, Dt), RDiv(e.h.beta[1], os))
    IN  << <<"far-outcome", e.out = "ok">>,
           <<"far-mu", e.out = "ok" => \A i \in 1 .. Len(e.mu) : CloseR(e.mu[i], pr, "1e-8", RMul("1e-8", RDiv(MaxAbs(Ds.f), os)))>>,
           <<"far-sig", e.out = "ok" => \A i \in 1 .. Len(e.sig) : CloseR(RSq(e.sig[i]), vf, "1e-8", 0)>> >>

\* The maps between the coordinates of the user and those of the model, of points and of values (None stays None).
\* e.x, e.v are in the coordinates of the user and e.xm, e.vm in those of the model; e.dir says which are the results.
\* e.v = <<mean, deviation, gradients of both, second derivatives of both>>
MapClauses(e) ==
    LET os == ObjScale(C, Dt)
        sh == ObjShift(C, Dt)
        xsh == XShift(C, Dt)
        in  == IF e.dir = "scl" THEN e.v ELSE e.vm
        res == IF e.dir = "scl" THEN e.vm ELSE e.v
        ok(exp, val, rt, at) == IF IsNone(exp) THEN IsNone(val) ELSE Close(val, exp, rt, at)
        fac(k, i, j) == IF k < 3 THEN os ELSE IF k < 5 THEN RDiv(os, Xs[i]) ELSE RDiv(os, RMul(Xs[i], Xs[j]))
        map1(k, f, v) == IF e.dir = "scl" THEN RMul(IF k = 1 THEN RSub(v, sh) ELSE v, f) ELSE RAdd(RDiv(v, f), IF k = 1 THEN sh ELSE 0)
        mapv(k, v) == IF IsNone(v) THEN v
                      ELSE RSeq([i \in 1 .. Len(v) |->
                             IF k < 3 THEN map1(k, os, v[i])
                             ELSE RSeq([a \in 1 .. C.dim |-> IF k < 5 THEN map1(k, fac(k, a, 1), v[i][a])
                                                             ELSE RSeq([b \in 1 .. C.dim |-> map1(k, fac(k, a, b), v[i][a][b])])])])
        at(k) == IF k > 1 THEN 0 ELSE RMul("1e-13", IF e.dir = "scl" THEN RMul(RAbs(sh), os) ELSE RAbs(sh))
        xat == RMul("1e-13", MaxAbs(RSeq([i \in 1 .. C.dim |-> IF e.dir = "scl" THEN RMul(xsh[i], Xs[i]) ELSE xsh[i]])))
    IN  << <<"map-outcome", e.out = "ok">>,
           <<"map-x", e.out = "ok" =>
               IF e.dir = "scl" THEN Close(e.xm, RSeq([i \in 1 .. Len(e.x) |-> ScaleX(C, Dt, Xs, e.x[i])]), "1e-12", xat)
               ELSE Close(e.x, RSeq([i \in 1 .. Len(e.xm) |-> RSeq([k \in 1 .. C.dim |-> RAdd(RDiv(e.xm[i][k], Xs[k]), xsh[k])])]), "1e-12", xat)>>,
           <<"map-values", e.out = "ok" => /\ Len(res) = 6
                                           /\ \A k \in 1 .. 6 : ok(mapv(k, in[k]), res[k], "1e-12", at(k))>> >>

\* The mean for data, lengthscales, mean function and factorization that are given (not those of
\* the object): the model e.c2, e.d2, e.h is in the scaled coordinates of the object
MeanClauses(e) ==
    LET one == [k \in 1 .. C.dim |-> R(1)]
        St == Setup(e.c2, e.d2, e.h, one)
        os == ObjScale(C, Dt)
        fmu(z) == RAdd(ObjShift(C, Dt), RDiv(Mu(e.c2, e.d2, St, e.h, one, ScaleX(C, Dt, Xs, z)), os))
        x(i) == RSeq(e.x[i])
        nx == Len(e.x)
        k(i) == KVec(e.c2, e.d2, St, e.h, one, ScaleX(C, Dt, Xs, x(i)))
        sc == RAdd(RDiv(RSum(<<RAbs(e.h.beta[1]), MaxAbs(e.d2.f),
                               MaxSeq([i \in 1 .. nx |-> RSum([a \in 1 .. Len(k(i)) |-> RAbs(RMul(k(i)[a], St.w[a]))])])>>), os), RMul("1e-2", RAbs(ObjShift(C, Dt))))
        tm == RMul(RAdd("1e-10", RMul("1e-14", RMul(NData(e.d2), St.kap))), sc)
        gs == MaxSeq([i \in 1 .. C.dim |-> RMul(RMul(4, RSqrt(e.h.theta[i])), RAbs(Xs[i]))])
        ok == e.out = "ok"
    IN  << <<"helper-outcome", ok>>,
           <<"helper-given-mu", ok => Close(e.mu, RSeq([i \in 1 .. nx |-> fmu(x(i))]), 0, tm)>>,
           <<"helper-given-dmu", ok => IF e.grad THEN /\ ~IsNone(e.dmu) /\ Len(e.dmu) = nx
                                                      /\ \A i \in 1 .. nx : Close(e.dmu[i], GradOf(fmu, x(i)), "1e-8", RMul(RMul(10, tm), gs))
                                       ELSE IsNone(e.dmu)>> >>

\* Two results of the implementation that have to agree
SameClauses(e) == << <<e.what, e.oa = e.ob /\ (e.oa = "ok" => Close(e.a, e.b, e.rt, RMul(e.at, RMax(MaxAbs(e.b), "1e-300"))))>> >>
(***************************************************************************)
(* What is stored for an iteration (LifeTrace judges whole histories) when *)
(* the settings have changed before                                        *)
(***************************************************************************)
RowClauses(e) ==
    LET r == e.row n == N(Dt)
        given(x, y) == x = y \/ (x = "nan" /\ y = "none")
    IN  << <<"row-outcome", e.out = "ok" /\ e.kept>>,
           <<"row-hp", e.out = "ok" => /\ r.theta = e.h.theta /\ r.beta = e.h.beta /\ given(r.alpha, e.h.alpha) /\ given(r.varK, e.h.varK)
                                       /\ given(r.vf, e.h.vf) /\ given(r.vg, e.h.vg)>>,
           <<"row-scaling", e.out = "ok" => IF IsScaled(C) THEN Close(r.xs, Xs, "1e-12", 0) ELSE \A i \in 1 .. Len(r.xs) : r.xs[i] = "nan">>,
           <<"row-nugget", e.out = "ok" => /\ CloseR(r.etab, EtaBase(C, n), "1e-9", 0)
                                           /\ (C.ug => CloseR(r.etag, EtaGrad(C, n), "1e-9", 0))
                                           /\ r.eta = (IF C.ug THEN r.etag ELSE r.etab)>>,
           <<"row-distance", e.out = "ok" => IF n > 1 THEN CloseR(r.vmin, MinSeq(PairDists(Dt.x)), "1e-9", 0) ELSE ~RIsNum(r.vmin)>>,
           <<"row-vreq", e.out = "ok" => IF C.wc = "rescale_origin" THEN CloseR(r.vreq, VreqOrigin(n, C.dim), "1e-9", 0) ELSE r.vreq = "nan">>,
           <<"row-at-max", e.out = "ok" => r.cond = e.cond /\ r.atmax = RLe(RMul("0.99", e.condmax), r.cond)>>,
           <<"row-recalled", e.back = e.h>> >>

(***************************************************************************)
(* Difference quotients.  The functions are the quadratics                 *)
(* x.(A[k] x) + b[k].x + q[k], given with what is said to be their gradient *)
(***************************************************************************)
FdClauses(e) ==
    LET n == Len(e.x) m == Len(e.A)
        f(k, x) == RAdd(RAdd(RDot(x, [i \in 1 .. n |-> RDot(e.A[k][i], x)]), RDot(e.b[k], x)), e.q[k])
        at(i, h) == [j \in 1 .. n |-> IF j = i THEN RAdd(e.x[j], h) ELSE e.x[j]]
        fd(k, i) == IF e.cent THEN RDiv(RSub(f(k, at(i, e.h)), f(k, at(i, RNeg(e.h)))), RMul(2, e.h)) ELSE RDiv(RSub(f(k, at(i, e.h)), f(k, e.x)), e.h)
        w == [k \in 1 .. m |-> [i \in 1 .. n |-> fd(k, i)]]
        tol == RDiv(RMul("1e-13", RAdd(1, MaxAbs([k \in 1 .. m |-> f(k, e.x)]))), e.h)
    IN  << <<"fd-outcome", e.out = "ok">>,
           <<"fd-quotient", e.out = "ok" => Close(e.fd, IF e.flat THEN w[1] ELSE w, "1e-9", RMul(100, tol))>>,
           <<"fd-given", e.out = "ok" => e.g = e.given /\ e.kept>>,
           <<"fd-printed", e.out = "ok" => e.quiet>> >>
\* A number is at most another one
LeClauses(e) == << <<e.what, RLe(e.a, e.b)>> >>

(***************************************************************************)
(* The outcome of an optimization of the hyperparameters.  e.calls are the *)
(* calls of the optimizer: scaling of the data, start x0, bounds, result.  *)
(* The first e.nx0 belong to the first pass, the others are a pass each    *)
(* (methods that iterate; RescaleIter).  e.h, e.xs: what is in force after *)
(* it; e.row, e.rowxs, e.cond, e.atmax: what was stored.                   *)
(***************************************************************************)
RI == INSTANCE RescaleIter WITH Le <- RLe
OptzClauses(e) ==
    LET noisy == IsNoisy(C, Dt)
        fix == N(Dt) <= e.nconst
        iter == ~fix /\ C.wc \in {"rescale_origin", "rescale_eta_vary"} /\ e.maxit > 1
        nc == Len(e.calls)
        ok == e.out = "ok"
        one == [k \in 1 .. C.dim |-> R(1)]
        xs == IF IsScaled(C) THEN RSeq(e.xs) ELSE one
        xsOf(j) == IF IsScaled(C) THEN RSeq(e.calls[j].xs) ELSE one
        ds == Scaled(C, Dt, xs)
        vK(h) == IF noisy THEN R(h.varK) ELSE R(1)
        knum(s, h) == LET M == CondMat(C, Dt, s, h, vK(h)) IN IF C.norm = "fro" THEN CondFro(M) ELSE Cond2(M)
        kap == CondEst(CondMat(C, Dt, ds, e.h, vK(e.h)))
        rt == RAdd("1e-9", RMul("1e-14", kap))
        L == Lkd(C, Dt, ds, e.h)
        ys == RAdd(MaxAbs(DataVec(C, Dt, ds)), "1e-3")
        LK == Layout(C, Dt)
        \* the number for the hyperparameter at position i
        num(h, i) == CASE LK[i] = "theta" -> h.theta[i] [] LK[i] = "kernel" -> h.alpha [] LK[i] = "varK" -> h.varK [] LK[i] = "vf" -> h.vf [] OTHER -> h.vg
        dec(v) == Decode(C, Dt, RSeq(v))
        \* are the hyperparameters h those of the vector v with the lengthscales for another scaling?
        same(h, v, from, to) == LET w == dec(v) IN
            \A i \in 1 .. Len(LK) : CloseR(num(h, i), IF LK[i] = "theta" THEN RDiv(RMul(num(w, i), RSq(from[i])), RSq(to[i])) ELSE num(w, i), "1e-8", 0)
        logs(v) == LET w == dec(v) IN RSeq([i \in 1 .. C.dim |-> RDiv(RLn(w.theta[i]), RLn(10))])
        dist(j) == LET t == logs(e.calls[j].x) IN RSub(RDot(t, t), RDiv(RSq(RSum(t)), C.dim))
        \* one call per pass: the result that the first pass selected is the one from which the second one starts
        pass(p, first) == IF p = 1 THEN first ELSE e.nx0 + p - 1
        np == nc - e.nx0 + 1
        nextxs(j) == LET w == dec(e.calls[j].x) IN XsFor(C, Dt, RSeq([k \in 1 .. C.dim |-> RMul(xsOf(j)[k], RSqrt(w.theta[k]))]))
        follows(j, k) == /\ Close(xsOf(k), nextxs(j), "1e-8", 0)
                         /\ same(dec(e.calls[k].x0), e.calls[j].x, xsOf(j), xsOf(k))
        tolk(x) == RMul(x, RAdd("1", RAdd("1e-6", RMul("1e-14", x))))
        \* the likelihood at a vector in the scaling of the call j is at most that of its result
        feas(j, v) == ~e.usec \/ RLe(tolk(knum(Scaled(C, Dt, xsOf(j)), dec(v))), e.condmax)
        lk(j, v) == LkdAt(C, Dt, Scaled(C, Dt, xsOf(j)), RSeq(v))[1]
        lt(a, b) == RLe(a, RAdd(b, RMul(RAdd(RAbs(a), NData(Dt)), RMul(RAdd("1e-8", RMul("1e-13", RMin(kap, e.condmax))), 1))))
        better(j, S) == LET r == lk(j, e.calls[j].x)
                        IN  \A i \in S : /\ (feas(i, e.calls[i].x0) => lt(lk(i, e.calls[i].x0), r))
                                          /\ (feas(i, e.calls[i].x) => lt(lk(i, e.calls[i].x), r))
        FirstOK(j) == IF iter THEN IF np = 1 THEN TRUE ELSE follows(j, e.nx0 + 1) ELSE same(e.h, e.calls[j].x, one, one)
        Firsts == {j \in 1 .. e.nx0 : FirstOK(j)}
        shape == nc >= e.nx0 /\ (iter \/ nc = e.nx0)
        inbox(x, b) == \A k \in 1 .. Len(x) : RLe(RSub(b.lb[k], RMul("1e-9", RMax(1, RAbs(b.lb[k])))), x[k]) /\ RLe(x[k], RAdd(b.ub[k], RMul("1e-9", RMax(1, RAbs(b.ub[k])))))
        none(a, b) == IF IsNone(a) \/ IsNone(b) THEN IsNone(a) = IsNone(b) ELSE CloseR(a, b, 0, 0)
        ini == [theta |-> [k \in 1 .. C.dim |-> e.init.theta], alpha |-> IF C.kern = "RatQu" THEN e.init.alpha ELSE "none", varK |-> e.init.varK,
                vf |-> IF Dt.ksf THEN "none" ELSE e.init.vf, vg |-> IF ~C.ug \/ Dt.ksg THEN "none" ELSE e.init.vg]
    IN  IF ~ok THEN << <<"optz-outcome", FALSE>> >>
        ELSE IF fix THEN
             << <<"optz-initial", nc = 0 /\ (\A k \in 1 .. C.dim : CloseR(e.h.theta[k], ini.theta[k], "1e-14", 0))
                                  /\ none(e.h.varK, ini.varK) /\ none(e.h.vf, ini.vf) /\ none(e.h.vg, ini.vg)
                                  /\ (C.kern = "RatQu" => none(e.h.alpha, ini.alpha))>>,
                <<"optz-initial-beta", CloseR(e.h.beta[1], RDiv(RSum(ds.f), N(Dt)), "1e-10", RMul("1e-12", ys))>>,
                <<"optz-cond", CloseR(e.cond, knum(ds, e.h), RAdd(rt, "1e-9"), 0)>>,
                <<"optz-scaling", Close(xs, Xs, "1e-9", 0)>> >>
        ELSE IF ~shape THEN << <<"optz-passes", FALSE>> >>
        ELSE << <<"optz-starts", e.real => \A j \in 1 .. IF e.slsqp THEN nc ELSE e.nx0 : inbox(e.calls[j].x0, e.calls[j])>>,
                <<"optz-bounds", (e.real /\ e.slsqp) => \A j \in 1 .. nc : inbox(e.calls[j].x, e.calls[j])>>,
                <<"optz-final-bounds", (e.real /\ e.slsqp) => LET c1 == e.calls[1] IN
                      \A i \in 1 .. Len(LK) : LET f == IF LK[i] = "theta" THEN RDiv(RSq(xs[i]), RSq(xsOf(1)[i])) ELSE R(1)
                                                 val == RMul(num(e.h, i), f)
                                                 bnd(v) == IF IsLog(C, LK[i]) THEN RPow(10, v) ELSE R(v)
                                             IN  RLe(RMul(bnd(c1.lb[i]), "0.99999999"), val) /\ RLe(val, RMul(bnd(c1.ub[i]), "1.00000001"))>>,
                \* every pass is bounded by the same lengthscales in the original coordinates
                <<"optz-pass-bounds", \A j \in 2 .. nc : \A i \in 1 .. Len(LK) :
                      LET f == IF LK[i] = "theta" THEN RDiv(RSq(xsOf(1)[i]), RSq(xsOf(j)[i])) ELSE R(1)
                          at(b, g) == IF IsLog(C, LK[i]) THEN RAdd(b, RDiv(RLn(g), RLn(10))) ELSE RMul(b, g)
                      IN  /\ CloseR(e.calls[j].lb[i], at(e.calls[1].lb[i], f), "1e-9", IF IsLog(C, LK[i]) THEN "1e-9" ELSE 0)
                          /\ CloseR(e.calls[j].ub[i], at(e.calls[1].ub[i], f), "1e-9", IF IsLog(C, LK[i]) THEN "1e-9" ELSE 0)>>,
                <<"optz-result", Firsts # {}>>,
                <<"optz-best", (e.real /\ e.slsqp) => \E j \in Firsts : better(j, 1 .. e.nx0)>>,
                <<"optz-better", (e.real /\ e.slsqp) => \A j \in e.nx0 + 1 .. nc : better(j, {j})>>,
                <<"optz-feasible", (e.real /\ e.usec /\ \E i \in 1 .. e.nx0 : feas(i, e.calls[i].x)) =>
                      \E j \in Firsts : RLe(knum(Scaled(C, Dt, xsOf(j)), dec(e.calls[j].x)), RMul(tolk(e.condmax), "1.01"))>>,
                <<"optz-pass-scaling", \A j \in 1 .. e.nx0 : Close(xsOf(j), Xs, "1e-9", 0)>>,
                <<"optz-scaling", ~iter => Close(xs, Xs, "1e-9", 0)>>,
                <<"optz-follows", iter => \A j \in e.nx0 + 1 .. nc - 1 : follows(j, j + 1)>>,
                <<"optz-passes", iter => \E f \in Firsts : RI!Complete([p \in 1 .. np |-> dist(pass(p, f))], e.maxit, e.tol)>>,
                <<"optz-chosen", iter => \E f \in Firsts : LET dd == [p \in 1 .. np |-> dist(pass(p, f))]
                                                                IN  \E p \in 1 .. np : /\ \A q \in 1 .. np : RLe(dd[p], RAdd(dd[q], "1e-9"))
                                                                                       /\ Close(xs, nextxs(pass(p, f)), "1e-8", 0)
                                                                                       /\ same(e.h, e.calls[pass(p, f)].x, xsOf(pass(p, f)), xs)>>,
                <<"optz-xs", IsScaled(C) => Close(xs, XsFor(C, Dt, xs), "1e-8", 0)>>,
                <<"optz-beta", Close(e.h.beta, <<L[2]>>, rt, RMul(rt, ys))>>,
                <<"optz-varK", ~noisy => CloseR(e.h.varK, L[3], RMul(10, rt), "1e-30")>>,
                <<"optz-alpha", C.kern = "RatQu" /\ ~HasAlpha(C) => CloseR(e.h.alpha, "2", 0, 0)>>,
                <<"optz-absent", (Dt.ksf => IsNone(e.h.vf)) /\ (~C.ug \/ Dt.ksg => IsNone(e.h.vg)) /\ (C.kern # "RatQu" => IsNone(e.h.alpha))>>,
                <<"optz-cond", CloseR(e.cond, knum(ds, e.h), RAdd(rt, "1e-9"), 0)>>,
                <<"optz-atmax", LET t == RMul("0.99", e.condmax) IN e.atmax = RLe(t, e.cond)>>,
                <<"optz-row", Close(e.row.theta, e.h.theta, 0, 0) /\ Close(e.row.beta, e.h.beta, 0, 0) /\ none(e.row.alpha, e.h.alpha)
                              /\ none(e.row.varK, e.h.varK) /\ none(e.row.vf, e.h.vf) /\ none(e.row.vg, e.h.vg)
                              /\ (IsScaled(C) => Close(e.rowxs, e.xs, 0, 0))>>,
                <<"optz-model", e.setup>> >>

Clauses(e) ==
    CASE e.ev = "Kernel" -> KernelClauses(e)
      [] e.ev = "Case"   -> << <<"case-xs", ~IsNone(e.xs) /\ IsScaled(e.c) /\ e.xs0 =>
                                  Close(e.xs, InitXs(e.c, e.d), "1e-10", 0)>> >>
      [] e.ev = "Bad"    -> << <<"data-accepted", FALSE>> >> \* consistent data were rejected
      [] e.ev = "Noise"  -> NoiseClauses(e)
      [] e.ev = "Nugget" -> NuggetClauses(e)
      [] e.ev = "Vreq"   -> VreqClauses(e)
      [] e.ev = "Mat"    -> MatClauses(e)
      [] e.ev = "Bound"  -> BoundClauses(e)
      [] e.ev = "Lkd"    -> LkdClauses(e)
      [] e.ev = "Grad"   -> GradClauses(e)
      [] e.ev = "Eval"   -> EvalClauses(e)
      [] e.ev = "Optz"   -> OptzClauses(e)
      [] e.ev = "Interp" -> InterpClauses(e)
      [] e.ev = "Far"    -> FarClauses(e)
      [] e.ev = "Map"    -> MapClauses(e)
      [] e.ev = "Mean"   -> MeanClauses(e)
      [] e.ev = "Fig"    -> FigClauses(C, Dt, Ds, e)
      [] e.ev = "Same"   -> SameClauses(e)
      [] e.ev = "Le"     -> LeClauses(e)
      [] e.ev = "Fd"     -> FdClauses(e)
      [] e.ev = "Row"    -> RowClauses(e)

Init == l = 1 /\ cur = 0
Next == /\ l <= Len(Trace)
        /\ IF Ev(l).ev = "Case" THEN cur' = l ELSE cur' = cur
        /\ Judge(l, Clauses(Ev(l)))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
