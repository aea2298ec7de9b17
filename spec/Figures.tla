------------------------------- MODULE Figures --------------------------------
(***************************************************************************)
(* What the figures show.  A drawing is a record                           *)
(*   lines  sequence of [x, y, lab]: curves and (with one point) markers   *)
(*   bands  sequence of sequences of vertices <<x, y>> (filled areas)      *)
(*   xlab, ylab   labels of the axes                                       *)
(*   maps   sequence of contour maps [X, Y, Z, levels, filled]             *)
(* Nothing is said about the order, colours or styles.                     *)
(***************************************************************************)
EXTENDS GPModel

\* the curves v and w agree
Agree(v, w, tol) == Len(v) = Len(w) /\ Close(v, w, tol, RMul(tol, RMax(MaxAbs(w), "1e-30")))
IsLine(ln, x, y, tol) == Agree(ln.x, x, tol) /\ Agree(ln.y, y, tol)
DrawsAs(g, lab, x, y, tol) == \E k \in 1 .. Len(g.lines) : g.lines[k].lab = lab /\ IsLine(g.lines[k], x, y, tol)
Draws(g, x, y, tol) == \E k \in 1 .. Len(g.lines) : IsLine(g.lines[k], x, y, tol)
Rise(x) == RDiv(RLn(x), RLn(10))
MinOf(v) == MinSeq(v)
MaxOf(v) == MaxSeq(v)
\* to the interval from 0 to 1
Unit(v) == LET lo == MinOf(v)
               hi == RMax("1e-8", RSub(MaxOf(v), lo))
           IN  RSeq([i \in 1 .. Len(v) |-> RDiv(RSub(v[i], lo), hi)])
\* a marker at a minimum of the curve
MarksMin(ln, x, y, tol) == Len(ln.x) = 1 /\ \E i \in 1 .. Len(x) : /\ CloseR(y[i], MinOf(y), 0, RMul(tol, RMax(MaxAbs(y), "1e-30")))
                                                                  /\ IsLine(ln, <<x[i]>>, <<y[i]>>, tol)

(***************************************************************************)
(* Surrogate: e.x, e.exa exact function, e.xe, e.fe data, e.mu, e.sig, and *)
(* e.ns deviations; e.on says what is asked for.                           *)
(***************************************************************************)
Bound(e, s) == RSeq([i \in 1 .. Len(e.mu) |-> RAdd(e.mu[i], RMul(s, RMul(e.ns, e.sig[i])))])
SurrSeries(e) == (IF e.on.sig THEN {"lower", "upper"} ELSE {}) \cup (IF e.on.mu THEN {"mean"} ELSE {})
                 \cup (IF e.on.exact THEN {"exact"} ELSE {}) \cup (IF e.on.eval THEN {"data"} ELSE {})
SurrX(e, s) == IF s = "data" THEN e.xe ELSE e.x
SurrY(e, s) == CASE s = "lower" -> Bound(e, -1) [] s = "upper" -> Bound(e, 1) [] s = "mean" -> e.mu [] s = "exact" -> e.exa [] s = "data" -> e.fe
\* the filled area lies between the bounds and reaches both everywhere
BandOk(b, e) == LET lo == Bound(e, -1)
                    hi == Bound(e, 1)
                    tol == RMul("1e-9", RMax(MaxAbs(hi), MaxAbs(lo)))
                    at(v, i, w) == RLe(RAbs(RSub(v[1], e.x[i])), "1e-9") /\ RLe(RAbs(RSub(v[2], w[i])), tol)
                IN  /\ \A i \in 1 .. Len(e.x) : (\E k \in 1 .. Len(b) : at(b[k], i, lo)) /\ (\E k \in 1 .. Len(b) : at(b[k], i, hi))
                    /\ \A k \in 1 .. Len(b) : \E i \in 1 .. Len(e.x) : at(b[k], i, lo) \/ at(b[k], i, hi)
\* names in the legend
SurrName(s) == CASE s = "mean" -> "$\\mu_f$" [] s = "exact" -> "$f(x)$" [] s = "data" -> "$x_{\\mathrm{eval}}$"
SurrShown(g, e) == \A s \in SurrSeries(e) : IF s \in {"lower", "upper"} THEN Draws(g, SurrX(e, s), SurrY(e, s), "1e-9")
                                             ELSE DrawsAs(g, SurrName(s), SurrX(e, s), SurrY(e, s), "1e-9")
SurrClauses(e) ==
    LET ok == e.out = "ok"
        g == e.fig
    IN  << <<"fig-outcome", ok>>,
           <<"fig-surrogate", ok => SurrShown(g, e)>>,
           <<"fig-band", ok => IF e.on.sig THEN \E k \in 1 .. Len(g.bands) : BandOk(g.bands[k], e) ELSE g.bands = <<>> >>,
           <<"fig-minimum", ok /\ e.on.fmin => \E k \in 1 .. Len(g.lines) : MarksMin(g.lines[k], e.x, e.exa, "1e-9")>>,
           <<"fig-nothing-else", ok => \A k \in 1 .. Len(g.lines) :
                 \/ \E s \in SurrSeries(e) : IsLine(g.lines[k], SurrX(e, s), SurrY(e, s), "1e-9")
                 \/ e.on.fmin /\ MarksMin(g.lines[k], e.x, e.exa, "1e-9")>> >>

(***************************************************************************)
(* Acquisition functions: e.vals[i] has the values at e.x, e.labs[i] names *)
(* it in the legend.                                                       *)
(***************************************************************************)
AcqClauses(e) ==
    LET ok == e.out = "ok"
        g == e.fig
        y(i) == IF e.scl THEN Unit(e.vals[i]) ELSE e.vals[i]
        Ids == 1 .. Len(e.vals)
    IN  << <<"fig-outcome", ok>>,
           <<"fig-acquisition", ok => \A i \in Ids : \E k \in 1 .. Len(g.lines) : g.lines[k].lab = e.labs[i] /\ IsLine(g.lines[k], e.x, y(i), "1e-9")>>,
           <<"fig-acq-minimum", ok /\ e.star => \A i \in Ids : \E k \in 1 .. Len(g.lines) : MarksMin(g.lines[k], e.x, y(i), "1e-9")>>,
           <<"fig-nothing-else", ok => \A k \in 1 .. Len(g.lines) :
                 \E i \in Ids : IsLine(g.lines[k], e.x, y(i), "1e-9") \/ (e.star /\ MarksMin(g.lines[k], e.x, y(i), "1e-9"))>> >>

(***************************************************************************)
(* The example scripts.  e.figs are all axes after the script has ended.   *)
(***************************************************************************)
\* sin x, by its series
RECURSIVE SinTerms(_, _, _)
SinTerms(x, t, k) == IF k > 140 THEN R(0) ELSE RAdd(t, SinTerms(x, RDiv(RNeg(RMul(t, RSq(x))), k * (k + 1)), k + 2))
RSin(x) == SinTerms(x, R(x), 2)
\* the functions that the scripts approximate
Waves(x) == RAdd(RSin(R(x[1])), RSin(RDiv(RMul(10, x[1]), 3)))
Rosen(x) == RSum([i \in 1 .. Len(x) - 1 |-> RAdd(RMul(10, RSq(RSub(x[i + 1], RSq(x[i])))), RSq(RSub(1, x[i])))])
Target(name, x) == IF name = "waves" THEN Waves(x) ELSE Rosen(x)
\* the data handed to the surrogate are values and derivatives of the function
FigDataClauses(d, e) ==
    LET xs(i) == RSeq(d.x[i])
    IN  << <<"script-values", \A i \in 1 .. N(d) : CloseR(d.f[i], Target(e.fun, xs(i)), "1e-9", "1e-11")>>,
           <<"script-gradients", \A i \in 1 .. Len(d.g) : Close(d.g[i], RSeq(GradOf(LAMBDA z : Target(e.fun, z), xs(i))), "1e-9", "1e-9")>>,
           <<"script-noise-free", ~e.noisy => d.ksf /\ RLe(MaxAbs(d.sf), 0) /\ (d.g # <<>> => d.ksg /\ \A i \in 1 .. Len(d.sg) : RLe(MaxAbs(d.sg[i]), 0))>> >>

\* Theta at which gamma (the reciprocal of the distance at which the correlation varies) has the value gm
ThetaFor(kern, gm) == RDiv(RSq(gm), RSq(Gamma(kern, <<1>>, 1)))

\* likelihood as a function of gamma: e.calls[k] = [th, lkd], markers at the lengthscales that are evaluated
Lkd1Clauses(c, e) ==
    LET gam(t) == Gamma(c.kern, RSeq(t), 1)
        n == Len(e.calls)
        x == RSeq([k \in 1 .. n |-> gam(e.calls[k].th)])
        y == Unit(RSeq([k \in 1 .. n |-> e.calls[k].lkd]))
    IN  << <<"script-likelihood", \E a \in 1 .. Len(e.figs) : Draws(e.figs[a], x, y, "1e-7")>>,
           <<"script-markers", \A j \in 1 .. Len(e.evals) : \E a \in 1 .. Len(e.figs) : \E k \in 1 .. n :
                 /\ Close(e.calls[k].th, e.evals[j].th, "1e-12", 0)
                 /\ Draws(e.figs[a], <<x[k]>>, <<y[k]>>, "1e-7")>> >>
\* surrogate with 2 deviations for each evaluation of the model
SurrFigClauses(e) ==
    << \* the trend and the variance of the largest likelihood for the lengthscale
       <<"script-hyperparameters", e.evals # <<>> /\ \A j \in 1 .. Len(e.evals) : \E k \in 1 .. Len(e.calls) :
            /\ Close(e.calls[k].th, e.evals[j].th, "1e-12", 0)
            /\ CloseR(e.evals[j].beta, e.calls[k].lbeta, "1e-12", 0)
            /\ CloseR(e.evals[j].varK, e.calls[k].lvarK, "1e-12", 0)>>,
       <<"script-surrogate", \A j \in 1 .. Len(e.evals) : \E a \in 1 .. Len(e.figs) :
            SurrShown(e.figs[a], [x |-> e.evals[j].x, exa |-> RSeq([i \in 1 .. Len(e.evals[j].x) |-> Waves(<<e.evals[j].x[i]>>)]), xe |-> e.xe, fe |-> e.fe,
                                  mu |-> e.evals[j].mu, sig |-> e.evals[j].sig, ns |-> e.ns,
                                  on |-> [sig |-> TRUE, mu |-> TRUE, exact |-> TRUE, eval |-> TRUE]])>> >>
\* scaled acquisition functions of the evaluation of the model
AcqFigClauses(e) ==
    LET m == e.evals[Len(e.evals)]
        name(b) == IF b = 0 THEN "$\\mu_f$" ELSE "$\\mu_f - 2 \\sigma_f$"
        acq(b) == Unit(RSeq([i \in 1 .. Len(m.x) |-> RSub(m.mu[i], RMul(b, m.sig[i]))]))
    IN  << <<"script-acquisition", \A b \in {0, 2} : \E a \in 1 .. Len(e.figs) :
               DrawsAs(e.figs[a], name(b), m.x, acq(b), "1e-7") /\ \E k \in 1 .. Len(e.figs[a].lines) : MarksMin(e.figs[a].lines[k], m.x, acq(b), "1e-7")>> >>

\* correlations of values and derivatives: x is the difference of the points times gamma
CorrOf(kern, al, what, r) ==
    LET th == <<ThetaFor(kern, 1)>>
        p == Phis(kern, al, RMul(th[1], RSq(r)))
        u == <<RMul(RMul(2, th[1]), r)>>
    IN  CASE what = "ff" -> p[1]
          [] what = "gf" -> KEntry(p, u, <<RMul(2, th[1])>>, <<1>>, 0)
          [] what = "gg" -> KEntry(p, u, <<RMul(2, th[1])>>, <<1>>, 1)
CorrName(what) == CASE what = "ff" -> "$\\mathrm{corr} \\left( f(x), f(y) \\right)$"
                    [] what = "gf" -> "$\\mathrm{corr} \\left( \\frac{\\partial f(x)}{\\partial x} , f(y) \\right)$"
                    [] what = "gg" -> "$\\mathrm{corr} \\left( \\frac{\\partial f(x)}{\\partial x}, \\frac{\\partial f(y)}{\\partial y} \\right)$"
CorrLine(g, name, kern, al, what) == \E k \in 1 .. Len(g.lines) :
    /\ g.lines[k].lab = name
    /\ Len(g.lines[k].x) > 1
    /\ \A i \in 1 .. Len(g.lines[k].x) : CloseR(g.lines[k].y[i], CorrOf(kern, al, what, R(g.lines[k].x[i])), "1e-9", "1e-12")
\* names of the kernels (in ASCII)
KernName(k, alname) == CASE k = "SqExp" -> "Gaussian" [] k = "Ma5f2" -> "Matrn $\\frac{5}{2}$" [] OTHER -> "Rat quad, $\\alpha = " \o alname \o "$"
CorrClauses(e) ==
    << <<"script-correlation", \A k \in 1 .. Len(e.kerns) : \E a \in 1 .. Len(e.figs) :
            \A w \in {"ff", "gf", "gg"} : CorrLine(e.figs[a], CorrName(w), e.kerns[k], e.al, w)>>,
       <<"script-correlation-all", e.together => \E a \in 1 .. Len(e.figs) : \A k \in {"SqExp", "Ma5f2", "RatQu"} : CorrLine(e.figs[a], KernName(k, e.alname), k, e.al, "ff")>>,
       <<"script-correlation-map", e.map => \E a \in 1 .. Len(e.figs) : \E m \in 1 .. Len(e.figs[a].maps) :
            LET t == ThetaFor("SqExp", 1)
                th == <<t, t>>
                M == e.figs[a].maps[m]
                z(x, y) == KEntry(Phis("SqExp", 1, SqDist(<<x, y>>, <<R(0), R(0)>>, th)), <<RMul(RMul(2, t), x), RMul(RMul(2, t), y)>>, <<RMul(2, t), RMul(2, t)>>, <<1>>, 2)
            IN  \A i \in 1 .. Len(M.Z) : \A j \in 1 .. Len(M.Z[i]) : CloseR(M.Z[i][j], z(R(M.X[i][j]), R(M.Y[i][j])), "1e-9", "1e-12")>> >>

\* the nugget of the preconditioned matrix for the squared-exponential kernel and the target t
ConstNugget(c, d, t) == EtaGrad([c EXCEPT !.kern = "SqExp", !.wc = "precon", !.ug = TRUE, !.etaset = "Kbase_eta", !.target = t], N(d))
\* maps over the two lengthscales; e.pairs[k] = <<i, j>> is the position in the maps of e.calls[k] = [th, cond, lkd]; e.swap: the
\* axis of abscissas is labelled with the second lengthscale
MapClauses2(c, d, e) ==
    LET n == Len(e.calls)
        gam(k, i) == Gamma(c.kern, RSeq(e.calls[k].th), i)
        \* a matrix that is not factorized has no likelihood
        has == {k \in 1 .. n : ~IsNone(e.calls[k].lkd)}
        lks == RSeq(SelectSeq([k \in 1 .. n |-> e.calls[k].lkd], LAMBDA v : ~IsNone(v)))
        lkmax == MaxOf(lks)
        lkmin == MinOf(lks)
        at(M, k) == <<e.pairs[k][1], e.pairs[k][2]>>
        X(M, k) == M.X[e.pairs[k][1]][e.pairs[k][2]]
        Y(M, k) == M.Y[e.pairs[k][1]][e.pairs[k][2]]
        Z(M, k) == M.Z[e.pairs[k][1]][e.pairs[k][2]]
        axes(M) == \A k \in 1 .. n : /\ CloseR(X(M, k), gam(k, IF e.swap THEN 2 ELSE 1), "1e-9", 0)
                                     /\ CloseR(Y(M, k), gam(k, IF e.swap THEN 1 ELSE 2), "1e-9", 0)
        size(M) == Len(M.Z) * Len(M.Z[1]) = n
        shows(M, f(_)) == size(M) /\ axes(M) /\ \A k \in 1 .. n : IF IsNone(f(k)) THEN IsNone(Z(M, k)) ELSE ~IsNone(Z(M, k)) /\ CloseR(Z(M, k), f(k), "1e-9", "1e-9")
        lc(k) == Rise(e.calls[k].cond)
        lu(k) == IF k \in has THEN RDiv(RSub(e.calls[k].lkd, lkmin), RSub(lkmax, lkmin)) ELSE "none"
        best == {k \in has : CloseR(e.calls[k].lkd, lkmax, "1e-12", 0)}
        star(g) == \E k \in best : Draws(g, <<gam(k, IF e.swap THEN 2 ELSE 1)>>, <<gam(k, IF e.swap THEN 1 ELSE 2)>>, "1e-9")
        with(f(_)) == {a \in 1 .. Len(e.figs) : \E m \in 1 .. Len(e.figs[a].maps) : e.figs[a].maps[m].filled /\ shows(e.figs[a].maps[m], f)}
        over == \E k \in 1 .. n : RLt(RMul("1.0001", e.limit), e.calls[k].cond)
        under == \A k \in 1 .. n : RLt(e.calls[k].cond, RMul("0.9999", e.limit))
        limit(g) == \E m \in 1 .. Len(g.maps) : /\ ~g.maps[m].filled
                                                /\ shows(g.maps[m], lc)
                                                /\ Close(g.maps[m].levels, <<Rise(e.limit)>>, "1e-9", 0)
    IN  << <<"script-nugget", ~IsNone(e.eta) => CloseR(e.eta, ConstNugget(c, d, e.limit0), "1e-9", 0)>>,
           <<"script-condition", with(lc) # {}>>,
           <<"script-likelihood", with(lu) # {}>>,
           <<"script-best", (\E a \in with(lc) : star(e.figs[a])) /\ (\E a \in with(lu) : star(e.figs[a]))>>,
           <<"script-limit", over => \E a \in with(lu) : limit(e.figs[a])>>,
           <<"script-no-limit", under => \E a \in with(lu) : \A m \in 1 .. Len(e.figs[a].maps) : e.figs[a].maps[m].filled>> >>

\* nuggets as functions of gamma, for the calls e.ks
NuggetFigClauses(c, d, e) ==
    LET n == N(d)
        nd == n * (c.dim + 1)
        one == RSub(e.limit, 1)
        tr == RDiv(nd, one)
        gam(k) == Gamma(c.kern, RSeq(e.calls[k].th), 1)
        cor(k) == CorMat(WithNoise(c, d, d, e.calls[k], R(1)))
        ks == {e.ks[i] : i \in 1 .. Len(e.ks)}
        eig == [k \in ks |-> EigMinMax(cor(k))]
        const == RDiv(ConstNugget(c, d, e.limit), tr)
        vary == [k \in ks |-> RDiv(RDiv(NormInf(cor(k)), one), tr)]
        least == [k \in ks |-> RDiv(RDiv(RMax(0, RSub(eig[k][2], RMul(eig[k][1], e.limit))), one), tr)]
        l1 == [k \in ks |-> LET k1 == RMul(NormInf(cor(k)), NormInf(Inverse(cor(k))))
                                  rn == RSqrt(nd)
                                  big == RDiv(RMul(RMul(nd, rn), k1), RSub(RAdd(RMul(k1, rn), nd), 1))
                              IN  RDiv(RMax(0, RMul(RDiv(big, one), RSub(1, RDiv(e.limit, RMul(rn, k1))))), tr)]
        cn == [k \in ks |-> RDiv(eig[k][2], eig[k][1])]
        good == {k \in ks : RLe(cn[k], "1e11")}
        S == 1 .. Len(e.figs)
        \* a curve over all calls with these values
        curve(name, f, K, rt, at) == \E a \in S : \E q \in 1 .. Len(e.figs[a].lines) :
              LET ln == e.figs[a].lines[q]
              IN  /\ name = "" \/ ln.lab = ("$\\frac{\\eta_{" \o name \o "\\eta_{\\mathrm{Tr}}}$")
                  /\ Len(ln.x) = Len(e.calls)
                  /\ \A k \in K : CloseR(ln.x[k], gam(k), "1e-9", 0) /\ CloseR(ln.y[k], f[k], rt, at)
        lks == RSeq([k \in 1 .. Len(e.calls) |-> e.calls[k].lkd])
        lkmax == MaxOf(lks)
        best == {k \in 1 .. Len(e.calls) : CloseR(lks[k], lkmax, "1e-12", 0)}
    IN  << <<"script-nugget", ~IsNone(e.eta) => CloseR(e.eta, ConstNugget(c, d, e.limit0), "1e-9", 0)>>,
           <<"script-nugget-const", curve("\\mathrm{G circle, const}}}{", [k \in ks |-> const], ks, "1e-9", 0)>>,
           <<"script-nugget-vary", curve("\\mathrm{G circle, vary}}}{", vary, ks, "1e-9", 0)>>,
           <<"script-nugget-least", curve("\\mathrm{min}}}{ ", least, ks, "1e-5", "1e-5")>>,
           <<"script-nugget-l1", curve("\\ell_2}}{ ", l1, ks, "1e-3", "1e-3")>>,
           <<"script-nugget-cond", curve("", cn, good, "1e-3", 0)>>,
           <<"script-best", \E k \in best : \A a \in S : \E q \in 1 .. Len(e.figs[a].lines) :
                 Len(e.figs[a].lines[q].x) = 2 /\ Close(e.figs[a].lines[q].x, <<gam(k), gam(k)>>, "1e-9", 0)>> >>

\* the likelihood while its optimization is debugged (two lengthscales, no noise): e.map over both, markers at the result
DebugClauses(c, d, ds, e) ==
    LET ok == e.out = "ok"
        M == e.fig.maps[1]
        th(i, j) == <<ThetaFor(c.kern, R(M.X[i][j])), ThetaFor(c.kern, R(M.Y[i][j]))>>
        vec(i, j) == [k \in 1 .. 2 |-> RDiv(RLn(th(i, j)[k]), RLn(10))]
        ps == 1 .. Len(e.at)
        L == RSeq([k \in ps |-> LkdAt(c, d, ds, vec(e.at[k][1], e.at[k][2]))[1]])
        Z == RSeq([k \in ps |-> M.Z[e.at[k][1]][e.at[k][2]]])
        \* the scaled likelihood is affine in the likelihood
        hi == CHOOSE k \in ps : \A j \in ps : RLe(Z[j], Z[k])
        lo == CHOOSE k \in ps : \A j \in ps : RLe(Z[k], Z[j])
        Flat == [i \in 1 .. Len(M.Z) |-> MinOf(M.Z[i])]
        Flat2 == [i \in 1 .. Len(M.Z) |-> MaxOf(M.Z[i])]
    IN  << <<"fig-outcome", ok /\ Len(e.fig.maps) = 1>>,
           <<"debug-likelihood", ok => \A k \in ps : CloseR(RMul(RSub(Z[k], Z[lo]), RSub(L[hi], L[lo])), RMul(RSub(L[k], L[lo]), RSub(Z[hi], Z[lo])), 0,
                                                      RMul("1e-6", RAdd("1e-300", RAbs(RMul(RSub(L[hi], L[lo]), RSub(Z[hi], Z[lo]))))))>>,
           <<"debug-order", ok => RLe(L[lo], L[hi])>>,
           <<"debug-scale", ok => CloseR(MinOf(Flat), 0, 0, "1e-9") /\ CloseR(MaxOf(Flat2), 1, 0, "1e-9")>>,
           <<"debug-result", ok => Draws(e.fig, <<Gamma(c.kern, RSeq(e.h.theta), 1)>>, <<Gamma(c.kern, RSeq(e.h.theta), 2)>>, "1e-9")>>,
           <<"debug-labels", ok => e.labs>> >>

\* the script ends, and saves what it is asked to save
RunClauses(e) ==
    << <<"script-completes", e.out = "ok">>,
       <<"script-saves", e.out = "ok" => \A i \in 1 .. Len(e.wants) : e.wants[i]>>,
       <<"script-saved", e.out = "ok" => \A i \in 1 .. Len(e.saved) : e.saved[i].n > 0>>,
       \* as it is in the end, and each under a name of its own
       <<"script-saves-all", e.out = "ok" /\ e.all => \A i \in 1 .. Len(e.drawn) : e.drawn[i] > 0 =>
             \E k \in 1 .. Len(e.saved) : e.saved[k].fig = i /\ e.saved[k].n = e.drawn[i]>>,
       <<"script-names", e.out = "ok" => \A i, k \in 1 .. Len(e.saved) : i # k => e.saved[i].name # e.saved[k].name>> >>

FigClauses(c, d, ds, e) ==
    CASE e.k = "surr"  -> SurrClauses(e)
      [] e.k = "acq"   -> AcqClauses(e)
      [] e.k = "run"   -> RunClauses(e)
      [] e.k = "data"  -> FigDataClauses(d, e)
      [] e.k = "lkd1"  -> Lkd1Clauses(c, e)
      [] e.k = "surrs" -> SurrFigClauses(e)
      [] e.k = "acqs"  -> AcqFigClauses(e)
      [] e.k = "corr"  -> CorrClauses(e)
      [] e.k = "map"   -> MapClauses2(c, d, e)
      [] e.k = "debug" -> DebugClauses(c, d, ds, e)
      [] e.k = "eta"   -> NuggetFigClauses(c, d, e)
=============================================================================
