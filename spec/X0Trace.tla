------------------------------- MODULE X0Trace --------------------------------
(***************************************************************************)
(* Recorded bounds, samples and selected starts against HpBounds.          *)
(* e.k    configuration (HpLayout)      e.i, e.win iteration, window       *)
(* e.init initial value per hyperparameter                                 *)
(* e.hist values given for the iterations 0 .. i-1: per hyperparameter a   *)
(*        sequence (for theta one sequence per dimension)                  *)
(* e.rng  range per hyperparameter      e.lhs, e.box factors               *)
(***************************************************************************)
EXTENDS Trace, GPModel
LY == INSTANCE HpLayout
HB == INSTANCE HpBounds
VARIABLE l

InsR(s, v) == LET k == Len(SelectSeq(s, LAMBDA w : RLt(w, v))) IN SubSeq(s, 1, k) \o <<v>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE SortR(_)
SortR(s) == IF s = <<>> THEN <<>> ELSE InsR(SortR(Tail(s)), Head(s))
Median(s) == LET t == SortR(s) n == Len(s) IN IF n % 2 = 1 THEN R(t[(n + 1) \div 2]) ELSE RHalf(RAdd(t[n \div 2], t[n \div 2 + 1]))
Clip(v, r) == RMin(RMax(v, r[1]), r[2])
Log10(v) == RDiv(RLn(v), RLn(10))

Flds(e) == LY!Flat(LY!Has(e.k), e.k.dim)
Given(e, fj) == IF fj[1] = "theta" THEN e.hist.theta[fj[2]] ELSE e.hist[fj[1]]
Centre(e, fj) == Clip(IF e.i = 0 THEN R(e.init[fj[1]]) ELSE Median(HB!Window(Given(e, fj), e.i, e.win)), e.rng[fj[1]])
Lower(e, fj, fac) == RMax(RDiv(Centre(e, fj), fac), e.rng[fj[1]][1])
Upper(e, fj, fac) == RMin(RMul(Centre(e, fj), fac), e.rng[fj[1]][2])
Coord(e, fj, v) == IF LY!IsLog(e.k, fj[1]) THEN Log10(v) ELSE v
LowerV(e, fac) == LET F == Flds(e) IN [m \in 1 .. Len(F) |-> Coord(e, F[m], Lower(e, F[m], fac))]
UpperV(e, fac) == LET F == Flds(e) IN [m \in 1 .. Len(F) |-> Coord(e, F[m], Upper(e, F[m], fac))]
CloseV(e, obs, exp) == LET F == Flds(e) IN Len(obs) = Len(F) /\ \A m \in 1 .. Len(F) : CloseR(obs[m], exp[m], "1e-11", IF LY!IsLog(e.k, F[m][1]) THEN "1e-11" ELSE 0)

Bounds(e) == << <<"x0-lb", CloseV(e, e.lb, LowerV(e, e.box))>>, <<"x0-ub", CloseV(e, e.ub, UpperV(e, e.box))>>,
                <<"x0-range", LET F == Flds(e) IN \A m \in 1 .. Len(F) : /\ RLe(e.lb[m], e.ub[m])
                                 /\ RLe(RSub(Coord(e, F[m], R(e.rng[F[m][1]][1])), RMul("1e-12", RAbs(e.lb[m]))), e.lb[m])
                                 /\ RLe(RSub(e.ub[m], RMul("1e-12", RAbs(e.ub[m]))), Coord(e, F[m], R(e.rng[F[m][1]][2])))>> >>

\* each of the n strata of each coordinate holds one start
Strata(e, lo, up, m) ==
    LET n == e.n c == SortR([q \in 1 .. n |-> R(e.x0[q][m])]) w == RDiv(RSub(up[m], lo[m]), n) tol == RMul("1e-9", RAdd(RAbs(lo[m]), RAbs(up[m])))
    IN  \A q \in 1 .. n : RLe(RSub(RAdd(lo[m], RMul(q - 1, w)), tol), c[q]) /\ RLe(c[q], RAdd(RAdd(lo[m], RMul(q, w)), tol))
InBox(e, lo, up) == \A q \in 1 .. Len(e.x0) : \A m \in 1 .. Len(lo) :
    LET tol == RMul("1e-12", RAdd(RAbs(lo[m]), RAbs(up[m]))) IN RLe(RSub(lo[m], tol), e.x0[q][m]) /\ RLe(e.x0[q][m], RAdd(up[m], tol))
Sample(e) ==
    LET lo == LowerV(e, e.lhs) up == UpperV(e, e.lhs) nh == Len(lo)
    IN  << <<"x0-count", Len(e.x0) = e.n /\ \A q \in 1 .. Len(e.x0) : Len(e.x0[q]) = nh>>,
           <<"x0-in-box", InBox(e, lo, up)>>,
           <<"x0-strata", Len(e.x0) = e.n => \A m \in 1 .. nh : Strata(e, lo, up, m)>>,
           \* one hyperparameter: equidistant
           <<"x0-single", nh = 1 /\ Len(e.x0) = e.n => \A q \in 1 .. e.n : CloseR(e.x0[q][1], RAdd(lo[1], RDiv(RMul(q, RSub(up[1], lo[1])), e.n + 1)), "1e-9", RMul("1e-9", RAdd(RAbs(lo[1]), RAbs(up[1]))))>>,
           <<"x0-reproducible", e.x0 = e.x0b /\ e.lb = e.lbb /\ e.ub = e.ubb>> >>

\* Selection: e.sample the sample, e.o outcomes of its members, e.sel what was selected, e.limit
RAdm(e) == {j \in 1 .. Len(e.o) : e.o[j].good /\ (~e.usecond \/ ~RLt(e.limit, e.o[j].cond))}
RGood(e) == {j \in 1 .. Len(e.o) : e.o[j].good}
RSel(e) == IF RAdm(e) # {} THEN {j \in RAdm(e) : \A q \in RAdm(e) : RLe(e.o[q].lkd, RAdd(e.o[j].lkd, RMul(e.tol, RAbs(e.o[j].lkd))))}
           ELSE {j \in RGood(e) : \A q \in RGood(e) : RLe(RMul(e.o[j].cond, RSub(1, e.tol)), e.o[q].cond)}
Select(e) == << <<"select-one", Len(e.sel) = 1>>,
                <<"select-best", \E j \in RSel(e) : e.sel[1] = e.sample[j]>>,
                <<"select-bounds", e.lb = e.lbb /\ e.ub = e.ubb>> >>

\* get_hp_bounds: without history the ranges; with it, on a logarithmic scale, a fraction of the range to both sides of the median
HBound(e, fj) ==
    LET r == e.rng[fj[1]] lr == <<Log10(r[1]), Log10(r[2])>>
        all == IF fj[1] # "theta" THEN HB!Window(e.hist[fj[1]], e.i, e.win)
               ELSE LET RECURSIVE C(_) C(j) == IF j = 0 THEN <<>> ELSE C(j - 1) \o HB!Window(e.hist.theta[j], e.i, e.win) IN C(e.k.dim)
        med == Clip(IF fj[1] = "theta" THEN Median([q \in 1 .. Len(all) |-> Log10(all[q])]) ELSE Log10(Median(all)), lr)
        w   == RMul(e.frac, RSub(lr[2], lr[1]))
        use == e.usehist /\ e.i > 0 /\ fj[1] # "alpha" /\ (fj[1] \in {"varK", "vf"} => e.i > e.nconst + 1)
        lo  == IF use THEN RMax(lr[1], RSub(med, w)) ELSE lr[1]
        up  == IF use THEN RMin(lr[2], RAdd(med, w)) ELSE lr[2]
    IN  <<lo, up>>
OkHB(e) == LET F == Flds(e) IN
    /\ Len(e.lb) = Len(F) /\ Len(e.ub) = Len(F)
    /\ \A m \in 1 .. Len(F) : LET b == HBound(e, F[m]) T(v) == IF LY!IsLog(e.k, F[m][1]) THEN v ELSE RExp(RMul(v, RLn(10)))
                              IN  CloseR(e.lb[m], T(b[1]), "1e-9", IF LY!IsLog(e.k, F[m][1]) THEN "1e-9" ELSE 0) /\ CloseR(e.ub[m], T(b[2]), "1e-9", IF LY!IsLog(e.k, F[m][1]) THEN "1e-9" ELSE 0)

Clauses(e) ==
    CASE e.ev = "X0"       -> IF e.out = "ok" THEN Bounds(e) \o Sample(e) ELSE << <<"x0-outcome", FALSE>> >>
      [] e.ev = "Select"   -> IF e.out = "ok" THEN Select(e) ELSE << <<"select-outcome", FALSE>> >>
      [] e.ev = "SelectAll" -> IF e.out = "ok" THEN << <<"select-all", e.sel = e.sample>>, <<"select-bounds", e.lb = e.lbb /\ e.ub = e.ubb>> >> ELSE << <<"select-outcome", FALSE>> >>
      [] e.ev = "HpBounds" -> IF e.out = "ok" THEN << <<"bounds", OkHB(e)>> >> ELSE << <<"bounds-outcome", FALSE>> >>

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(l, Clauses(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
