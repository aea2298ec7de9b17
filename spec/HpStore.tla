------------------------------- MODULE HpStore --------------------------------
(***************************************************************************)
(* The history of hyperparameters in memory and on disk.  A content is a   *)
(* sequence with one entry per iteration.  Saving takes several steps of   *)
(* the file system, and the process may be killed before each of them and  *)
(* while a file is written.  `PROTO` is the order of these steps:          *)
(*   tmp      write a temporary file, move main to the backup, move the    *)
(*            temporary file to main (what the implementation does)        *)
(*   direct   move main to the backup and write main                       *)
(*   inplace  write main                                                   *)
(*   remove   write a temporary file, remove the backup, move main to the  *)
(*            backup and the temporary file to main                        *)
(*   once     as tmp, but main is moved first                              *)
(* `last` is what was saved last (the content that main has or had).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NSlots, NVals, PROTO
VARIABLES mem, alive, main, old, tmp, todo, last, act
vars == <<mem, alive, main, old, tmp, todo, last, act>>

NoFile == <<>>
Torn   == <<99>>
Real(f) == f # NoFile /\ f # Torn
Blank  == [i \in 1 .. NSlots |-> 0]
Idle   == todo = <<>>
Steps  == CASE PROTO = "tmp"     -> <<"open", "write", "backup", "replace">>
            [] PROTO = "once"    -> <<"backup", "open", "write", "replace">>
            [] PROTO = "direct"  -> <<"backup", "openmain", "writemain">>
            [] PROTO = "inplace" -> <<"openmain", "writemain">>
            [] PROTO = "remove"  -> <<"open", "write", "rmold", "backup", "replace">>

A(name, k) == act' = [name |-> name, k |-> k]
Files == <<main, old, tmp, last>>

\* After loading, the entries are those of the file and the others stay
Loaded(m, f) == [i \in 1 .. Len(m) |-> IF i <= Len(f) THEN f[i] ELSE m[i]]
Trimmed(m, n) == SubSeq(m, 1, n)

Store   == /\ alive /\ Idle
           /\ \E i \in 1 .. Len(mem), v \in 1 .. NVals : mem' = [mem EXCEPT ![i] = v] /\ A("Store", i * 100 + v)
           /\ UNCHANGED <<alive, todo, main, old, tmp, last>>
Finish  == /\ alive /\ Idle
           /\ \E n \in 1 .. Len(mem) - 1 : mem' = Trimmed(mem, n) /\ A("Finish", n)
           /\ UNCHANGED <<alive, todo, main, old, tmp, last>>
Load    == /\ alive /\ Idle /\ main # Torn
           /\ (Real(main) => Len(main) <= Len(mem))
           /\ mem' = (IF main = NoFile THEN mem ELSE Loaded(mem, main))
           /\ A("Load", 0) /\ UNCHANGED <<alive, todo, main, old, tmp, last>>
Begin   == /\ alive /\ Idle /\ todo' = Steps /\ A("Begin", 0)
           /\ UNCHANGED <<mem, alive, main, old, tmp, last>>
Step    == /\ alive /\ ~Idle /\ todo' = Tail(todo) /\ A("Step", Len(todo))
           /\ UNCHANGED <<mem, alive>>
           /\ CASE Head(todo) = "open"      -> tmp' = Torn /\ UNCHANGED <<main, old, last>>
                [] Head(todo) = "write"     -> tmp' = mem /\ UNCHANGED <<main, old, last>>
                [] Head(todo) = "backup"    -> /\ IF main = NoFile THEN UNCHANGED <<main, old>> ELSE old' = main /\ main' = NoFile
                                               /\ UNCHANGED <<tmp, last>>
                [] Head(todo) = "replace"   -> main' = tmp /\ tmp' = NoFile /\ last' = mem /\ UNCHANGED old
                [] Head(todo) = "openmain"  -> main' = Torn /\ UNCHANGED <<old, tmp, last>>
                [] Head(todo) = "writemain" -> main' = mem /\ last' = mem /\ UNCHANGED <<old, tmp>>
                [] Head(todo) = "rmold"     -> old' = NoFile /\ UNCHANGED <<main, tmp, last>>
Crash   == /\ alive /\ alive' = FALSE /\ todo' = <<>> /\ mem' = Blank /\ A("Crash", Len(todo)) /\ UNCHANGED <<main, old, tmp, last>>
Restart == /\ ~alive /\ alive' = TRUE /\ A("Restart", 0) /\ UNCHANGED <<mem, todo, main, old, tmp, last>>

Init == /\ mem = Blank /\ alive = TRUE /\ main = NoFile /\ old = NoFile /\ tmp = NoFile /\ todo = <<>> /\ last = NoFile
        /\ act = [name |-> "Init", k |-> 0]
Next == Store \/ Finish \/ Load \/ Begin \/ Step \/ Crash \/ Restart
Spec == Init /\ [][Next]_vars

View == <<mem, alive, main, old, tmp, todo, last>>
Log  == PrintT(ToJson(<<View, [name |-> act'.name, k |-> act'.k, out |-> "ok"], View'>>))

\* A complete version, the last that was saved or the one that is being saved, is in main or the backup
Durable  == last # NoFile => \/ main = last \/ old = last
                             \/ (~Idle /\ main = mem)
\* What can be loaded is complete
Complete == main # Torn /\ old # Torn
\* The previous file is kept as the backup
Backup   == [][(act'.name = "Step" /\ todo' = <<>> /\ Real(last)) => (main' = mem /\ (old' = last \/ (old' = old /\ main = NoFile /\ old = last)))]_vars
\* Loading what was saved gives the same history, and the work goes on from it
RoundTrip == [][(act'.name = "Load" /\ Real(main)) => SubSeq(mem', 1, Len(main)) = main]_vars
=============================================================================
