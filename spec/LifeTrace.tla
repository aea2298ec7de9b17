------------------------------- MODULE LifeTrace -------------------------------
(***************************************************************************)
(* Recorded histories of calls on surrogates against GPLifecycle.  The     *)
(* event "Life" starts a history with a new object: its configuration c,   *)
(* the pool of data that are used and the number of iterations that can be *)
(* stored.  All other events are calls, with what was observed afterwards: *)
(*   e.hp   the hyperparameters of the object ("none" if there are none)   *)
(*   e.xs   the scaling of x                                               *)
(*   e.dg   one digest per iteration of everything stored for it           *)
(*   e.exp  the outcome in the behaviour of MC_Lifecycle, if it is one     *)
(***************************************************************************)
EXTENDS Trace, GPModel
VARIABLES l, cur, st, dg
vars == <<l, cur, st, dg>>

Ev(i) == Trace[i]
C  == Ev(cur).c
Pool(k) == Ev(cur).pool[k]
Slots == 0 .. (Ev(cur).slots - 1)
TNone == "none"
Ones == [i \in 1 .. C.dim |-> "1.0"]

Num(x) == ~IsNone(x) /\ RIsNum(x)
TUsable(h, k) ==
    LET d == Pool(k)
    IN  /\ Len(h.beta) = 1 /\ \A i \in 1 .. Len(h.beta) : Num(h.beta[i])
        /\ Len(h.theta) = C.dim /\ \A i \in 1 .. Len(h.theta) : Num(h.theta[i]) /\ RLt(0, h.theta[i])
        /\ Num(h.varK) /\ RLt(0, h.varK)
        /\ (C.kern = "RatQu" => Num(h.alpha) /\ RLt(0, h.alpha))
        /\ (IF d.ksf THEN IsNone(h.vf) ELSE Num(h.vf))
        /\ (C.ug => IF d.ksg THEN IsNone(h.vg) ELSE Num(h.vg))
TSame(a, b) == a = b
\* x is the scaling for the data k in the direction v
TXsRel(x, k, v) == IF ~IsScaled(C) THEN x = Ones ELSE ~IsNone(x) /\ Close(x, XsFor(C, Pool(k), v), "1e-9", 0)
TRowHp(r) == r.hp
TRowXs(r) == r.xs
L == INSTANCE GPLifecycle WITH None <- TNone, Nil <- IsNone, Usable <- TUsable, SameHp <- TSame, SameXs <- TSame, XsRel <- TXsRel, Unit <- Ones,
                               RowHp <- TRowHp, RowXs <- TRowXs

\* what an iteration that was never stored contains
NoHp == [beta |-> <<"nan">>, theta |-> [i \in 1 .. C.dim |-> "nan"], alpha |-> "none", varK |-> "nan", vf |-> "none", vg |-> "none"]

Xs0(e) == IF IsNone(e.xs) THEN Ones ELSE e.xs
Row(e) == [hp |-> e.hp, xs |-> IF IsScaled(C) THEN Xs0(e) ELSE TNone]

(***************************************************************************)
(* The state after the event, and the clauses                              *)
(***************************************************************************)
After(e) ==
    CASE e.ev = "SetData"  -> IF e.out = "ok" THEN L!SetData(st, e.k, Xs0(e)) ELSE st
      [] e.ev = "Refused"  -> st
      [] e.ev = "SetHp"    -> IF IsNone(st.data) THEN [st EXCEPT !.hp = e.h] ELSE L!SetHp(st, e.h)
      [] e.ev = "CustomHp" -> IF e.out = "ok" THEN L!CustomHp(st, e.h) ELSE st
      [] e.ev = "MutHp"    -> L!CustomHp(st, e.hp)
      [] e.ev \in {"Mutate", "Query"} -> st
      [] e.ev = "Current"  -> L!Current(st, e.i)
      [] e.ev = "Stored"   -> IF e.out # "ok" /\ IsNone(st.data) THEN [st EXCEPT !.hp = L!StoredHp(st, e.i, NoHp)]
                              ELSE L!Stored(st, e.i, Xs0(e), NoHp)
      [] e.ev = "Optz"     -> IF e.out = "ok" THEN L!Optz(st, e.i, e.hp, Xs0(e), Row(e)) ELSE L!OptzFail(st, Xs0(e))
      [] e.ev = "FaultHp"  -> L!Faulty(IF IsNone(st.data) THEN [st EXCEPT !.hp = e.h] ELSE L!SetHp(st, e.h))
      [] e.ev = "FaultStored" -> L!Faulty(IF e.out # "ok" /\ IsNone(st.data) THEN [st EXCEPT !.hp = L!StoredHp(st, e.i, NoHp)]
                                          ELSE L!Stored(st, e.i, Xs0(e), NoHp))
      [] e.ev = "FaultOptz" -> IF e.out = "ok" THEN L!Faulty(L!Optz(st, e.i, e.hp, Xs0(e), Row(e))) ELSE L!OptzFail(st, Xs0(e))
      [] e.ev = "Store"    -> L!Store(st, e.i, e.h, [Row(e) EXCEPT !.hp = e.h])
      [] e.ev = "Eval"     -> st

Outcome(e) ==
    CASE e.ev = "SetData"  -> e.out = "ok"
      [] e.ev = "Refused"  -> e.out = "exc"
      [] e.ev = "SetHp"    -> e.out = "ok" <=> L!OkSetHp(st, e.h)
      [] e.ev = "CustomHp" -> e.out = "ok" <=> (IsNone(e.h.varK) \/ RLt(0, e.h.varK))
      [] e.ev \in {"MutHp", "Mutate", "Query", "FaultHp", "FaultStored", "FaultOptz"} -> TRUE
      [] e.ev = "Current"  -> e.out = "ok" <=> L!OkCurrent(st, e.i)
      [] e.ev = "Stored"   -> e.out = "ok" <=> L!OkStored(st, e.i, NoHp)
      [] e.ev = "Optz"     -> L!OkOptz(st, e.i) => e.out = "ok"
      [] e.ev = "Store"    -> e.out = "ok"
      [] e.ev = "Eval"     -> (e.bad => e.out = "exc") /\ (e.out = "ok" => L!MayServe(st)) /\ (~e.bad /\ L!MustServe(st) => e.out = "ok")

ScalingOk(e) ==
    CASE e.ev = "SetData" /\ e.out = "ok" -> L!XsOfNewData(e.k, Xs0(e))
      [] e.ev \in {"Stored", "FaultStored"} /\ e.out = "ok" -> L!XsOfStored(st, e.i, Xs0(e))
      [] e.ev \in {"Optz", "FaultOptz"}   -> IsNone(st.data) \/ L!XsOfOptz(st, Xs0(e))
      [] e.ev \in {"Stored", "FaultStored"} /\ e.out # "ok" -> TRUE
      [] OTHER -> Xs0(e) = st.xs

Touches(e, i) == (e.ev \in {"Optz", "Store"} \/ (e.ev = "FaultOptz" /\ e.out = "ok")) /\ e.i = i

\* everything that is recorded for an iteration; e.row is what the object holds for it now
RowClauses(e) ==
    LET r == e.row d == Pool(st.data) n == N(d)
        mean == RDiv(RSum(d.f), n)
        var  == RDiv(RSum([i \in 1 .. n |-> RSq(RSub(d.f[i], mean))]), n)
        h == IF e.ev = "Store" THEN e.h ELSE e.hp
        given(x, y) == x = y \/ (x = "nan" /\ y = "none")
    IN  << <<"row-hp", r.theta = h.theta /\ r.beta = h.beta /\ given(r.alpha, h.alpha) /\ given(r.varK, h.varK) /\ given(r.vf, h.vf) /\ given(r.vg, h.vg)>>,
           <<"row-scaling", IF IsScaled(C) THEN r.xs = Xs0(e) ELSE \A i \in 1 .. Len(r.xs) : r.xs[i] = "nan">>,
           <<"row-nugget", /\ CloseR(r.etab, EtaBase(C, n), "1e-9", 0)
                           /\ IF C.ug THEN CloseR(r.etag, EtaGrad(C, n), "1e-9", 0) ELSE r.etag = "nan"
                           /\ r.eta = (IF C.ug THEN r.etag ELSE r.etab)>>,
           <<"row-distance", n > 1 => CloseR(r.vmin, MinSeq(PairDists(d.x)), "1e-9", 0)>>,
           <<"row-vreq", C.wc = "rescale_origin" => CloseR(r.vreq, VreqOrigin(n, C.dim), "1e-9", 0)>>,
           <<"row-cond", e.ev = "Store" => r.cond = e.cond>>,
           <<"row-at-max", r.atmax = (IF Num(r.cond) THEN RLe(RMul("0.99", C.condmax), r.cond) ELSE FALSE)>>,
           <<"row-var", n > 1 => CloseR(r.var, var, "1e-8", "1e-14") /\ (RLt("1e-8", var) => CloseR(r.varratio, RDiv(r.varK, r.var), "1e-9", 0))>>,
           \* nothing is left from what was stored for the iteration before
           <<"row-fresh", n = 1 => ~Num(r.varratio) /\ (e.ev \in {"Optz", "FaultOptz"} => \A i \in 1 .. Len(r.info) : ~Num(r.info[i]))>>,
           <<"row-info", e.ev = "Store" => /\ r.times = e.times
                                           /\ \A i \in 1 .. Len(e.info) : IF IsNone(e.info[i]) THEN ~Num(r.info[i]) ELSE r.info[i] = e.info[i]>>,
           <<"row-recorded", e.ev = "Optz" /\ n > 1 => \A i \in 1 .. 6 : RIsNum(r.info[i])>> >>

EvalClauses(e) ==
    IF e.out # "ok" THEN <<>>
    ELSE << <<"eval-key", e.key = <<st.data, st.hp, st.xs>> >>,
            <<"eval-fresh", e.refout = "ok" => \A i \in 1 .. Len(e.res) : Close(e.res[i], e.ref[i], "1e-6", RMul("1e-6", RMax(MaxAbs(e.ref[i]), e.floor)))>>,
            <<"eval-ref", e.refout = "ok">> >>

Clauses(e) ==
    LET t == After(e)
    IN  << <<"life-outcome-" \o e.ev, Outcome(e)>>,
           <<"life-generated", IsNone(e.exp) \/ e.out = e.exp \/ (e.ev = "Eval" /\ st.maybe)>>,
           <<"life-hp-" \o e.ev, IF e.ev = "MutHp" THEN e.hp = st.hp \/ e.hp = e.h ELSE e.hp = t.hp>>,
           <<"life-scaling-" \o e.ev, ScalingOk(e)>>,
           <<"hist-others", \A i \in Slots : Touches(e, i) \/ e.dg[i + 1] = dg[i + 1]>> >>
        \o (IF e.ev \in {"Optz", "FaultOptz", "Store"} /\ e.out = "ok" THEN RowClauses(e) ELSE <<>>)
        \o (IF e.ev = "Eval" THEN EvalClauses(e) ELSE <<>>)

Init == l = 1 /\ cur = 1 /\ st = "none" /\ dg = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Ev(l)
           IN  IF e.ev = "Life"
               THEN /\ cur' = l /\ dg' = e.dg
                    /\ st' = [data |-> "none", xs |-> [i \in 1 .. e.c.dim |-> "1.0"], hp |-> "none", snap |-> "none", maybe |-> FALSE,
                              hist |-> [i \in 0 .. (e.slots - 1) |-> "none"]]
               ELSE /\ cur' = cur /\ dg' = e.dg
                    /\ Judge(l, Clauses(e))
                    /\ st' = After(e)
Spec == Init /\ [][Next]_vars
=============================================================================
