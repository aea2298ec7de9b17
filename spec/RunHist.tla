------------------------------- MODULE RunHist -------------------------------
(***************************************************************************)
(* Histories of optimization runs.  A history is a sequence of values;     *)
(* some may be missing.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
\* Known(v): is the value there; Better(v, w): is v at least as good as w.
\* The best of the first i values at every iteration up to the last known value, and nothing after it.
BestAt(h, i, Known(_), Better(_, _), missing) ==
    LET J == {j \in 1 .. i : Known(h[j])} IN
    IF J = {} \/ ~\E j \in i .. Len(h) : Known(h[j]) THEN missing
    ELSE h[CHOOSE j \in J : \A k \in J : Better(h[j], h[k])]
Best(h, Known(_), Better(_, _), missing) == [i \in 1 .. Len(h) |-> BestAt(h, i, Known, Better, missing)]

(***************************************************************************)
(* Loading saved runs: f is a sequence of tables (row = starting point,    *)
(* column = iteration); cap limits the iterations (0: no limit).           *)
(* The result has one table per file, all of the same size.                *)
(***************************************************************************)
SetMax(S) == CHOOSE m \in S : \A k \in S : k <= m
NRows(f) == SetMax({Len(f[i]) : i \in 1 .. Len(f)})
NCols(f, cap) == IF cap # 0 THEN cap ELSE SetMax({Len(f[i][1]) : i \in 1 .. Len(f)})
Cell(f, i, j, k, missing) == IF j <= Len(f[i]) /\ k <= Len(f[i][j]) THEN f[i][j][k] ELSE missing
Loaded(f, cap, missing) == [i \in 1 .. Len(f) |-> [j \in 1 .. NRows(f) |-> [k \in 1 .. NCols(f, cap) |-> Cell(f, i, j, k, missing)]]]
=============================================================================
