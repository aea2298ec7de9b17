----------------------------- MODULE GPLifecycle ------------------------------
(***************************************************************************)
(* The life cycle of a surrogate: data, hyperparameters, the model that is *)
(* set up from them, and the history of hyperparameters.                   *)
(*                                                                         *)
(* A state of the object is a record                                       *)
(*   data   the data, or None before set_data                              *)
(*   xs     the internal scaling of x                                      *)
(*   hp     the current hyperparameters, or None                           *)
(*   snap   what the model that can be evaluated was set up from: a record *)
(*          [data, xs, hp], or None if there is no model                   *)
(*   maybe  TRUE if the model may also be refused: after a failed          *)
(*          optimization, and when the hyperparameters were replaced by    *)
(*          others that happen to have the same values                     *)
(*   hist   history: for each iteration the row that was stored, or None   *)
(* A row has at least the fields hp and xs.                                *)
(*                                                                         *)
(* The operators give the state after a call, and Ok... says whether the   *)
(* call has to succeed.  The same operators are model checked              *)
(* (MC_Lifecycle) and decide about recorded runs (LifeTrace).              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS None, Nil(_),     \* no value, and the test for it
          Usable(_, _),     \* are the hyperparameters usable with the data
          SameHp(_, _),     \* equality by value
          SameXs(_, _),
          XsRel(_, _, _),   \* x is the scaling for the data in the direction v
          Unit,             \* direction of the scaling that is used for new data
          RowHp(_), RowXs(_) \* what a row of the history restores

S0(slots) == [data |-> None, xs |-> Unit, hp |-> None, snap |-> None, maybe |-> FALSE, hist |-> [i \in slots |-> None]]

Snap(s) == [data |-> s.data, xs |-> s.xs, hp |-> s.hp]
CanSetup(s) == ~Nil(s.data) /\ ~Nil(s.hp) /\ Usable(s.hp, s.data)
\* setup_eval_model: afterwards there is a model of the current data and hyperparameters or none
Setup(s) == [s EXCEPT !.snap = IF CanSetup(s) THEN Snap(s) ELSE None, !.maybe = FALSE]

\* New data replace all of the old and there is no model until the next setup
SetData(s, d, x) == [s EXCEPT !.data = d, !.xs = x, !.snap = None, !.maybe = FALSE]
XsOfNewData(d, x) == XsRel(x, d, Unit)

\* set_hpara('set', i, h)
SetHp(s, h)   == Setup([s EXCEPT !.hp = h])
OkSetHp(s, h) == CanSetup([s EXCEPT !.hp = h])

\* set_custom_hp(h), or the caller changes the object that is used
CustomHp(s, h) == [s EXCEPT !.hp = h, !.maybe = TRUE]

\* set_hpara('current', i)
OkCurrent(s, i) == i > 0 /\ CanSetup(s)
Current(s, i)   == IF i > 0 /\ ~Nil(s.hp) THEN Setup(s) ELSE s

\* set_hpara('stored', i): the hyperparameters and the scaling of the iteration.  NoHp stands for
\* what an iteration that was never stored contains
StoredHp(s, i, NoHp) == IF Nil(s.hist[i]) THEN NoHp ELSE RowHp(s.hist[i])
OkStored(s, i, NoHp) == CanSetup([s EXCEPT !.hp = StoredHp(s, i, NoHp)])
XsOfStored(s, i, x) == IF Nil(s.hist[i]) \/ Nil(s.data) THEN SameXs(x, s.xs)
                       ELSE IF Nil(RowXs(s.hist[i])) THEN SameXs(x, s.xs)
                       ELSE XsRel(x, s.data, RowXs(s.hist[i]))
Stored(s, i, x, NoHp) == Setup([s EXCEPT !.hp = StoredHp(s, i, NoHp), !.xs = x])

\* set_hpara('optz', i): some hyperparameters and some scaling, which are stored at i and set up.
\* It has to succeed when the rows that it starts from are there.
Window == 5
OkOptz(s, i) == ~Nil(s.data) /\ \A j \in DOMAIN s.hist : j < i /\ j + Window >= i => ~Nil(s.hist[j]) /\ Usable(RowHp(s.hist[j]), s.data)
XsOfOptz(s, x) == XsRel(x, s.data, x)
Optz(s, i, h, x, row) == Setup([s EXCEPT !.hp = h, !.xs = x, !.hist[i] = row])
\* A failed optimization leaves the hyperparameters; the scaling may have been changed
OptzFail(s, x) == [s EXCEPT !.xs = x, !.maybe = TRUE]

\* The factorization fails during a call (a fault of the linear algebra).  If the call comes back
\* the object is as after the call without a fault, except that there may be no model; if it
\* does not come back there is no model.  A failed optimization stores nothing.
Faulty(t) == [t EXCEPT !.maybe = TRUE]

\* store_new_para_surr(i, h, ...)
Store(s, i, h, row) == [s EXCEPT !.hp = h, !.maybe = TRUE, !.hist[i] = row]

\* The model is evaluated only if it is that of the current data and hyperparameters
MayServe(s)  == /\ ~Nil(s.snap) /\ ~Nil(s.hp)
                /\ s.snap.data = s.data /\ SameXs(s.snap.xs, s.xs) /\ SameHp(s.snap.hp, s.hp)
MustServe(s) == MayServe(s) /\ ~s.maybe
=============================================================================
