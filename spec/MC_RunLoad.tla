------------------------------ MODULE MC_RunLoad ------------------------------
(***************************************************************************)
(* Loading runs of different lengths into one table: space for Rows x Cols *)
(* is reserved, the files are copied one after the other, and what no file *)
(* needs is cut off.  A value names its file, row and column.              *)
(***************************************************************************)
EXTENDS RunHist, TLC, Json
CONSTANTS Rows, Cols, MaxFiles, MR, MC, BUG
VARIABLES sh, cap, tab, nr, nc, i
vars == <<sh, cap, tab, nr, nc, i>>
Shapes == (1 .. MR) \X (1 .. MC)
Caps == 0 .. (MC + 1)
F(s) == [a \in 1 .. Len(s) |-> [j \in 1 .. s[a][1] |-> [k \in 1 .. s[a][2] |-> 100 * a + 10 * j + k]]]
\* columns that are reserved
Res == IF cap # 0 THEN cap ELSE IF BUG = "fixed" THEN Cols ELSE SetMax({sh[a][2] : a \in 1 .. Len(sh)})
Init == /\ \E n \in 1 .. MaxFiles : sh \in [1 .. n -> Shapes]
        /\ cap \in Caps /\ i = 1 /\ nr = 0 /\ nc = 0
        /\ tab = [a \in 1 .. Len(sh) |-> [j \in 1 .. Rows |-> [k \in 1 .. Res |-> 0]]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Next == /\ i <= Len(sh)
        /\ LET c == Min(sh[i][2], Res) IN
             /\ tab' = [tab EXCEPT ![i] = [j \in 1 .. Rows |-> [k \in 1 .. Res |-> IF j <= sh[i][1] /\ k <= c THEN F(sh)[i][j][k] ELSE @[j][k]]]]
             /\ nr' = IF BUG = "last_rows" THEN sh[i][1] ELSE Max(nr, sh[i][1])
             /\ nc' = Max(nc, c)
        /\ i' = i + 1 /\ UNCHANGED <<sh, cap>>
Spec == Init /\ [][Next]_vars
Done == i > Len(sh)
Result == [a \in 1 .. Len(sh) |-> [j \in 1 .. nr |-> [k \in 1 .. (IF cap = 0 THEN nc ELSE Res) |-> tab[a][j][k]]]]
Correct == Done => Result = Loaded(F(sh), cap, 0)
Log == PrintT(ToJson([sh |-> sh, cap |-> cap]))
ScenNext == Done
ScenSpec == Init /\ [][FALSE]_vars
Show == Log
===============================================================================
