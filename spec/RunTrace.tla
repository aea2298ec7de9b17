------------------------------- MODULE RunTrace -------------------------------
(* Results of the functions that process saved runs, judged by RunHist. *)
EXTENDS Trace, RealArith, RunHist
VARIABLES l
Known(v) == RIsNum(v)
Lo(v, w) == RLe(v, w)
Hi(v, w) == RLe(w, v)
BestOf(h, m) == IF m = "min" THEN Best(h, Known, Lo, "nan") ELSE Best(h, Known, Hi, "nan")
SameV(a, b) == IF RIsNum(a) /\ RIsNum(b) THEN RLe(a, b) /\ RLe(b, a) ELSE ~RIsNum(a) /\ ~RIsNum(b)
SameH(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameV(a[i], b[i])
SameT(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameH(a[i], b[i])
Same3(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : SameT(a[i], b[i])
\* smallest and largest of the best values of a case at iteration k (all of them known)
Col(B, k) == [j \in 1 .. Len(B) |-> B[j][k]]
RECURSIVE Fold(_, _, _)
Fold(f(_, _), v, i) == IF i = 1 THEN v[1] ELSE f(Fold(f, v, i - 1), v[i])
AllKnown(B, k) == \A j \in 1 .. Len(B) : RIsNum(B[j][k])
Clauses(e) ==
    CASE e.ev = "Best" -> << <<"run-outcome", e.out = "ok">>, <<"run-best", e.out = "ok" => SameH(e.got, BestOf(e.h, e.m))>> >>
      [] e.ev = "Load" -> << <<"run-outcome", e.out = "ok">>,
                             <<"run-loaded", e.out = "ok" => \A q \in 1 .. 3 : Same3(e.got[q], Loaded(e.f[q], e.cap, "nan"))>> >>
      [] e.ev = "Plot" -> LET B == [c \in 1 .. Len(e.d) |-> [j \in 1 .. Len(e.d[c]) |-> BestOf(e.d[c][j], e.m)]] IN
                          << <<"run-outcome", e.out = "ok">>,
                             <<"run-plotted", e.out = "ok" => Same3(e.lines, B)>>,
                             <<"run-area", e.out = "ok" /\ e.area =>
                                 /\ Len(e.lb) = Len(B) /\ Len(e.ub) = Len(B)
                                 /\ \A c \in 1 .. Len(B) : \A k \in 1 .. Len(B[c][1]) : AllKnown(B[c], k) =>
                                      /\ SameV(e.lb[c][k], Fold(RMin, Col(B[c], k), Len(B[c])))
                                      /\ SameV(e.ub[c][k], Fold(RMax, Col(B[c], k), Len(B[c])))>> >>
      [] OTHER -> <<>>
Init == l = 1
Next == l <= Len(Trace) /\ Judge(l, Clauses(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
