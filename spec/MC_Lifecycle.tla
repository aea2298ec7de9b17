---------------------------- MODULE MC_Lifecycle ------------------------------
(***************************************************************************)
(* All histories of calls on a surrogate with abstract data and            *)
(* hyperparameters, next to how the implementation decides that a model    *)
(* can be evaluated: it keeps a factor (`fac`, what it was computed from,  *)
(* or none) that some calls drop, and a copy of the hyperparameters that   *)
(* it compares by value (`hps`).  `act` is the last call with its outcome. *)
(* In the configuration MC_LifecycleTour every transition is printed, and  *)
(* the behaviours made of them are executed with the code.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NData, NHp, NSlots, NDirs, \* sizes
          Scaling,    \* is there an internal scaling
          BUG         \* a planted defect of the design, or "none"
VARIABLES s, fac, hps, act
vars == <<s, fac, hps, act>>

N0 == [none |-> TRUE]
\* data i; hyperparameters are records [k]; scaling [dir, data]
Datas == {[d |-> i] : i \in 1 .. NData}
Hps   == {[k |-> i] : i \in 1 .. NHp}
BadHp == [k |-> 0]            \* what was never stored or cannot be used
OptHp == [k |-> 100]          \* result of an optimization
Slots == 0 .. (NSlots - 1)
U     == [dir |-> 0, d |-> 0]
Xss(d) == IF Scaling THEN {[dir |-> k, d |-> d.d] : k \in 0 .. NDirs} ELSE {U}
AllXs == UNION {Xss(e) : e \in Datas}

MUsable(h, d) == h.k # 0
MSame(a, b) == a = b
MNil(a) == a = N0
MXsRel(x, d, v) == IF Scaling THEN x = [dir |-> v.dir, d |-> d.d] ELSE x = U
MRowHp(r) == r.hp
MRowXs(r) == IF Scaling THEN r.xs ELSE N0
L == INSTANCE GPLifecycle WITH None <- N0, Nil <- MNil, Usable <- MUsable, SameHp <- MSame, SameXs <- MSame, XsRel <- MXsRel, Unit <- U,
                               RowHp <- MRowHp, RowXs <- MRowXs

HasData == s.data # N0
Row(h, x) == [hp |-> h, xs |-> x]
A(name, k, out) == act' = [name |-> name, k |-> k, out |-> out]
Out(b) == IF b THEN "ok" ELSE "exc"

\* The implementation: evaluation needs a factor and the same hyperparameters as at the setup
Serves(f, h, st) == f # N0 /\ (BUG = "hp_not_compared" \/ h = st.hp)
\* setup of the model of the state t, starting with the factor f
ISetup(t, f) == /\ hps' = t.hp
                /\ fac' = (IF L!CanSetup(t) THEN L!Snap(t) ELSE IF BUG = "kept_when_setup_fails" THEN f ELSE N0)
Keep == UNCHANGED <<fac, hps>>

SetData == \E d \in Datas, x \in AllXs :
            /\ L!XsOfNewData(d, x)
            /\ s' = L!SetData(s, d, x)
            /\ A("SetData", d.d, "ok")
            /\ fac' = (IF BUG = "kept_with_new_data" THEN fac ELSE N0) /\ UNCHANGED hps
Rejected == HasData /\ s' = s /\ Keep /\ \E k \in 1 .. 2 : A("SetDataBad", k, "exc")
SetHp == \E h \in Hps \cup {BadHp} :
            /\ HasData
            /\ s' = L!SetHp(s, h)
            /\ A("SetHp", h.k, Out(L!OkSetHp(s, h)))
            /\ ISetup([s EXCEPT !.hp = h], fac)
CustomHp == \E h \in Hps : s' = L!CustomHp(s, h) /\ A("CustomHp", h.k, "ok") /\ Keep
\* the caller changes the arrays that it handed over
Mutate  == HasData /\ s' = s /\ A("Mutate", 0, "ok") /\ Keep
Current == \E i \in 0 .. 1 :
            /\ HasData
            /\ s' = L!Current(s, i)
            /\ A("Current", i, Out(L!OkCurrent(s, i)))
            /\ IF i > 0 /\ s.hp # N0 THEN ISetup(s, fac) ELSE Keep
Stored == \E i \in Slots, x \in AllXs \cup {U} :
            /\ HasData
            /\ IF BUG = "scaling_not_restored" THEN x = s.xs ELSE L!XsOfStored(s, i, x)
            /\ s' = L!Stored(s, i, x, BadHp)
            /\ A("Stored", i, Out(L!OkStored(s, i, BadHp)))
            /\ ISetup([s EXCEPT !.hp = L!StoredHp(s, i, BadHp), !.xs = x], fac)
Optz == \E i \in Slots, x \in AllXs :
            /\ HasData /\ L!OkOptz(s, i) /\ L!XsOfOptz(s, x)
            /\ s' = L!Optz(s, i, OptHp, x, Row(OptHp, x))
            /\ A("Optz", i, "ok")
            /\ ISetup([s EXCEPT !.hp = OptHp, !.xs = x], fac)
\* it fails in the search, possibly after the scaling was changed
OptzFail == \E x \in AllXs :
            /\ HasData /\ L!XsOfOptz(s, x)
            /\ s' = L!OptzFail(s, x)
            /\ A("OptzFail", 0, "exc")
            /\ fac' = (IF BUG = "kept_when_scaling_changes" \/ x = s.xs THEN fac ELSE N0) /\ UNCHANGED hps
Store == \E i \in Slots, h \in Hps :
            /\ HasData
            /\ s' = (IF BUG = "store_touches_others"
                     THEN [L!Store(s, i, h, Row(h, s.xs)) EXCEPT !.hist = [j \in Slots |-> IF j >= i THEN Row(h, s.xs) ELSE s.hist[j]]]
                     ELSE L!Store(s, i, h, Row(h, s.xs)))
            /\ A("Store", i * 100 + h.k, "ok") /\ Keep
Eval == \E k \in 0 .. 2 : \* value, with gradient, malformed
            s' = s /\ A("Eval", k, IF k = 2 THEN "exc" ELSE Out(L!MayServe(s))) /\ Keep

Init == s = L!S0(Slots) /\ fac = N0 /\ hps = N0 /\ act = [name |-> "Init", k |-> 0, out |-> "ok"]
Tour == SetData \/ Rejected \/ SetHp \/ CustomHp \/ Mutate \/ Current \/ Stored \/ Optz \/ Store \/ Eval
Next == Tour \/ OptzFail
Spec == Init /\ [][Next]_vars
TourSpec == Init /\ [][Tour]_vars

View == s
Log == PrintT(ToJson(<<s, act', s'>>))

(***************************************************************************)
(* What a user relies on                                                   *)
(***************************************************************************)
\* Whatever is evaluated is the model of the current data, scaling and hyperparameters
NeverStale == Serves(fac, hps, s) => fac = L!Snap(s)
\* and the implementation refuses exactly when the specification does
Agrees == /\ L!MustServe(s) => Serves(fac, hps, s)
          /\ Serves(fac, hps, s) => L!MayServe(s)
\* The scaling is always one for the current data
ScalingFits == HasData /\ Scaling => s.xs.d = s.data.d
\* Right after a setup that succeeded the model can be evaluated
Available == act.name \in {"SetHp", "Current", "Stored", "Optz"} /\ act.out = "ok" => L!MustServe(s)
\* Nothing but a call that stores at iteration i changes row i
Isolated == [][\A i \in Slots : s'.hist[i] # s.hist[i] =>
                 \/ act'.name = "Optz" /\ act'.k = i
                 \/ act'.name = "Store" /\ act'.k \div 100 = i]_vars
\* Recalling an iteration gives back its hyperparameters and scaling, and right after it was stored changes nothing
Recall == [][(act'.name = "Stored" /\ act'.out = "ok") =>
                /\ s'.hp = s.hist[act'.k].hp /\ s'.hist = s.hist
                /\ Scaling => s'.xs = [dir |-> s.hist[act'.k].xs.dir, d |-> s.data.d]
                /\ (act.name = "Store" /\ act.k \div 100 = act'.k) => s'.hp = s.hp /\ s'.xs = s.xs]_vars
\* What was refused or failed changes neither data nor history
Harmless == [][act'.out = "exc" => s'.data = s.data /\ s'.hist = s.hist]_vars
=============================================================================
