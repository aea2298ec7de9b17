------------------------------- MODULE InfoTrace -------------------------------
(***************************************************************************)
(* The tables that an object shows, judged by the history that the calls   *)
(* before have stored.  h[i] is what was stored for iteration i - 1.       *)
(***************************************************************************)
EXTENDS Trace, GPModel, FiniteSets
VARIABLES l, c, d, h
NaN == "nan"
Val(x) == IF IsNone(x) THEN NaN ELSE x
Blank(dim) == [theta |-> [k \in 1 .. dim |-> NaN], alpha |-> NaN, beta |-> NaN, varK |-> NaN, ratio |-> NaN, vf |-> NaN, vg |-> NaN,
               time |-> NaN, succ |-> NaN, imean |-> NaN, imax |-> NaN, con |-> NaN, cond |-> NaN, atmax |-> "0"]
VarF(x) == LET n == Len(x.f) m == RDiv(RSum(x.f), n) IN RDiv(RSum([i \in 1 .. n |-> RSq(RSub(x.f[i], m))]), n)
\* what a call stores (nothing is left of what the row held)
Row(e) ==
    LET v == VarF(d) inf(i) == IF IsNone(e.info[i]) THEN NaN ELSE e.info[i] IN
    [theta |-> e.h.theta, alpha |-> Val(e.h.alpha), beta |-> e.h.beta[1], varK |-> Val(e.h.varK),
     ratio |-> IF Len(d.f) = 1 \/ ~RLt(0, v) THEN NaN ELSE RStr(RDiv(e.h.varK, v)),
     vf |-> Val(e.h.vf), vg |-> Val(e.h.vg), time |-> e.times[1],
     succ |-> inf(1), imean |-> inf(2), imax |-> inf(3), con |-> inf(4),
     cond |-> e.cond, atmax |-> IF RIsNum(e.cond) /\ RLe(RMul("0.99", c.condmax), e.cond) THEN "1" ELSE "0"]
\* header and values of the columns of a table
NumName(i) == <<"0", "1", "2", "3", "4", "5">>[i]
Idx == [i \in 1 .. Len(h) |-> ToString(i - 1)]
Of(f(_)) == [i \in 1 .. Len(h) |-> f(h[i])]
Known(v) == \A i \in 1 .. Len(v) : RIsNum(v[i])
Median(v) == LET n == Len(v)
                 rank(j) == Cardinality({k \in 1 .. n : RLt(v[k], v[j]) \/ (~RLt(v[j], v[k]) /\ k < j)})
                 at(r) == v[CHOOSE j \in 1 .. n : rank(j) = r]
             IN  IF n % 2 = 1 THEN R(at((n - 1) \div 2)) ELSE RHalf(RAdd(at(n \div 2 - 1), at(n \div 2)))
Agg(f(_), v) == IF Known(v) THEN f(v) ELSE NaN
Pct(x) == IF RIsNum(x) THEN RMul(100, x) ELSE NaN
Summary ==
    << <<"", Idx>>, <<"Kernel", Of(LAMBDA r : r.alpha)>>, <<"Mu", Of(LAMBDA r : r.beta)>>, <<"varK", Of(LAMBDA r : r.varK)>>, <<"varK / var_f", Of(LAMBDA r : r.ratio)>> >>
    \o (IF ~d.ksf THEN << <<"hp var fun", Of(LAMBDA r : r.vf)>> >> ELSE <<>>)
    \o (IF c.ug /\ ~d.ksg THEN << <<"hp var grad", Of(LAMBDA r : r.vg)>> >> ELSE <<>>)
    \o (IF c.dim <= 3 THEN [k \in 1 .. c.dim |-> <<"theta " \o NumName(k), Of(LAMBDA r : r.theta[k])>>]
        ELSE << <<"theta min", Of(LAMBDA r : Agg(MinSeq, r.theta))>>, <<"theta max", Of(LAMBDA r : Agg(MaxSeq, r.theta))>>, <<"theta median", Of(LAMBDA r : Agg(Median, r.theta))>> >>)
Theta == << <<"", Idx>> >> \o [k \in 1 .. c.dim |-> <<"th" \o NumName(k), Of(LAMBDA r : r.theta[k])>>]
Optz == << <<"", Idx>>, <<"Time", Of(LAMBDA r : r.time)>>, <<"Success (%)", Of(LAMBDA r : Pct(r.succ))>>, <<"Mean i", Of(LAMBDA r : r.imean)>>, <<"Max i", Of(LAMBDA r : r.imax)>>,
           <<"Con good %", Of(LAMBDA r : Pct(r.con))>>, <<"Cond", Of(LAMBDA r : r.cond)>>, <<"At cond max?", Of(LAMBDA r : r.atmax)>> >>
Want(t) == CASE t = "summary" -> Summary [] t = "theta" -> Theta [] t = "optz" -> Optz
Cell(a, b) == IF RIsNum(b) THEN RIsNum(a) /\ CloseR(a, b, "6e-5", 0) ELSE ~RIsNum(a)
TabOk(t) == LET w == Want(t.kind) IN
    /\ Len(t.head) = Len(w)
    /\ \A k \in 1 .. Len(w) : t.head[k] = w[k][1] /\ Len(t.cols[k]) = Len(h) /\ \A i \in 1 .. Len(h) : Cell(t.cols[k][i], w[k][2][i])
Clauses(e) ==
    CASE e.ev = "Show" -> << <<"info-outcome", e.out = "ok">> >>
                       \o (IF e.out = "ok" THEN [k \in 1 .. Len(e.tabs) |-> <<"info-" \o e.tabs[k].kind, TabOk(e.tabs[k])>>]
                                                \o << <<"info-options", \A k \in 1 .. Len(e.opts) : e.opts[k][2] = e.opts[k][3]>>,
                                                      <<"info-complete", e.whole>>, <<"info-file", e.file>>, <<"info-unchanged", e.same>>, <<"info-screen", e.screen>> >> ELSE <<>>)
      [] e.ev \in {"Case", "Store", "Finish", "Again", "Copy"} -> << <<"info-outcome", e.out = "ok">> >>
      [] OTHER -> <<>>
Init == l = 1 /\ c = "none" /\ d = "none" /\ h = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ c' = IF e.ev = "Case" THEN e.c ELSE c
             /\ d' = IF e.ev \in {"Case", "Data"} THEN e.d ELSE d
             /\ h' = CASE e.ev \in {"Case", "Again"} -> [i \in 1 .. e.n |-> Blank(IF e.ev = "Case" THEN e.c.dim ELSE c.dim)]
                       [] e.ev = "Store"  -> [h EXCEPT ![e.i] = Row(e)]
                       [] e.ev = "Finish" -> SubSeq(h, 1, e.n)
                       [] OTHER -> h
             /\ Judge(l, Clauses(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, c, d, h>>
===============================================================================
