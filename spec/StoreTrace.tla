------------------------------ MODULE StoreTrace ------------------------------
(***************************************************************************)
(* Recorded histories of storing, saving (also interrupted), loading and   *)
(* finishing against HpStore.  Entries are digests of everything that is   *)
(* kept for an iteration, contents are sequences of them.  Observed after  *)
(* every call: e.mem, the content of the object, e.main and e.old, the     *)
(* files (<<>> if there is no file, <<"torn">> if it cannot be read or is  *)
(* incomplete).                                                            *)
(***************************************************************************)
EXTENDS Trace
VARIABLES l, st
vars == <<l, st>>

Ev(i) == Trace[i]
NoFile == <<>>
Torn   == <<"torn">>
Real(f) == f # NoFile /\ f # Torn
H == INSTANCE HpStore WITH NSlots <- 1, NVals <- 1, PROTO <- "tmp", mem <- st.mem, alive <- TRUE, main <- st.main, old <- st.old, tmp <- NoFile,
                           todo <- <<>>, last <- st.last, act <- 0

After(e) ==
    LET t == [st EXCEPT !.mem = e.mem, !.main = e.main, !.old = e.old]
    IN  CASE e.ev = "Save" -> [t EXCEPT !.last = IF e.out = "ok" \/ e.main = st.mem THEN st.mem ELSE st.last, !.blank = st.blank]
          [] e.ev = "New"  -> [t EXCEPT !.blank = e.mem]
          [] OTHER -> t

Same(e) == e.main = st.main /\ e.old = st.old
Clauses(e) ==
    LET k == e.ev
    IN  CASE k = "New"    -> << <<"store-new", \A i \in 1 .. Len(e.mem) : e.mem[i] = e.mem[1]>> >>
          [] k = "Store"  -> << <<"store-others", Len(e.mem) = Len(st.mem) /\ \A i \in 1 .. Len(st.mem) : i # e.i + 1 => e.mem[i] = st.mem[i]>>,
                                <<"store-files", Same(e)>> >>
          [] k = "Optz"   -> << <<"store-files", Same(e)>> >>
          [] k = "Finish" -> << <<"finish-outcome", e.out = "ok">>, <<"finish-trims", e.out = "ok" => e.mem = H!Trimmed(st.mem, e.n)>>, <<"store-files", Same(e)>> >>
          [] k = "Export" -> << <<"export-outcome", e.out = "ok">>, <<"export-content", e.out = "ok" => e.content = st.mem>>, <<"store-mem", e.mem = st.mem>>, <<"store-files", Same(e)>> >>
          \* e.src is what is loaded: <<>> if there is no file
          [] k = "Load"   -> << <<"load-outcome", e.src # Torn => e.out = "ok">>,
                                <<"load-content", e.out = "ok" /\ e.src # Torn => e.mem = H!Loaded(st.mem, e.src)>>,
                                <<"load-torn", e.out # "ok" => e.src = Torn>>, <<"store-files", Same(e)>> >>
          [] k = "Save"   -> << <<"save-mem", e.out = "crash" \/ e.mem = st.mem>>,
                                <<"save-outcome", e.kind = "full" => e.out = "ok">>,
                                <<"save-main", e.out = "ok" => e.main = st.mem>>,
                                <<"save-backup", e.out = "ok" /\ Real(st.main) => e.old = st.main>>,
                                <<"save-durable", st.last # NoFile => e.main = st.last \/ e.old = st.last \/ e.main = st.mem \/ e.old = st.mem>> >>
          \* what follows in the object that went on and in the one that was loaded
          [] k = "Resume" -> << <<"resume", e.a = e.b>> >>
          [] k = "Files"  -> << <<"save-names", e.ok>> >>

Init == l = 1 /\ st = [mem |-> <<>>, main |-> <<>>, old |-> <<>>, last |-> <<>>, blank |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Ev(l)
           IN  IF e.ev = "Life" THEN st' = [mem |-> <<>>, main |-> <<>>, old |-> <<>>, last |-> <<>>, blank |-> <<>>]
               ELSE /\ Judge(l, Clauses(e))
                    /\ st' = IF e.ev \in {"Resume", "Files"} THEN st ELSE After(e)
Spec == Init /\ [][Next]_vars
=============================================================================
