-------------------------------- MODULE IsoTrace --------------------------------
(***************************************************************************)
(* Calls on several surrogates in one process ("Call") against the same    *)
(* calls on each of them alone in a new process ("Alone", before them).    *)
(* e.o is the number of the surrogate, e.op the call, e.res what it        *)
(* returned and left behind, e.g0 and e.g1 the state of the process before *)
(* and after, e.alien the files that changed and are not its own.          *)
(***************************************************************************)
EXTENDS Trace, RealArith, Isolation
VARIABLES l, first, done, st
vars == <<l, first, done, st>>
Ev(i) == Trace[i]
Num(x) == RIsNum(x)
\* results are sequences of [s |-> text or "", v |-> vector of numbers]
SameV(a, b) == Len(a) = Len(b) /\ (a = b \/ ((\A i \in 1 .. Len(a) : Num(a[i]) /\ Num(b[i])) /\ Close(a, b, "1e-7", "1e-12")))
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : a[i].s = b[i].s /\ SameV(a[i].v, b[i].v)
Alone(o) == Ev(first + o)
Init == l = 1 /\ first = 0 /\ done = <<>> /\ st = <<>>
Clauses(e) ==
    CASE e.ev = "Call" ->
           LET n == done[e.o] + 1
               a == Alone(e.o)
           IN << <<"iso-script", a.ev = "Alone" /\ n <= Len(a.ops) /\ a.ops[n] = e.op>>,
                 <<"iso-outcome", a.out[n] = e.out>>,
                 <<"iso-able", (e.tour /\ Able(st[e.o], e.op)) => e.out = "ok">>,
                 <<"iso-result", (a.out[n] = "ok" /\ e.out = "ok") => Same(a.res[n], e.res)>>,
                 <<"iso-process", e.g0 = e.g1>>,
                 <<"iso-files", e.alien = <<>> >> >>
      [] e.ev = "Alone" -> << <<"iso-repeat", e.out = e.out2 /\ \A n \in 1 .. Len(e.out) : e.out[n] = "ok" => Same(e.res[n], e.res2[n])>> >>
      [] OTHER -> <<>>
Next == /\ l <= Len(Trace)
        /\ Judge(l, Clauses(Ev(l)))
        /\ l' = l + 1
        /\ IF Ev(l).ev = "Start" THEN first' = l /\ done' = [o \in 1 .. Ev(l).n |-> 0] /\ st' = [o \in 1 .. Ev(l).n |-> Fresh]
           ELSE IF Ev(l).ev = "Call" THEN first' = first /\ done' = [done EXCEPT ![Ev(l).o] = @ + 1]
                                         /\ st' = IF Ev(l).tour THEN [st EXCEPT ![Ev(l).o] = Do(@, Ev(l).op)] ELSE st
           ELSE UNCHANGED <<first, done, st>>
Spec == Init /\ [][Next]_vars
===============================================================================
