------------------------------ MODULE MC_Isolation ------------------------------
(***************************************************************************)
(* All interleavings of calls on N surrogates.  The implementation keeps   *)
(* shr besides the surrogates; a design in which it has a part in what a   *)
(* call does (BUG) has to be rejected.                                     *)
(***************************************************************************)
EXTENDS Isolation, FiniteSets, TLC, Json
CONSTANTS N, NData, NHp, NOpt, MaxLen, BUG
Objs == 1 .. N
Calls == {[name |-> "New", k |-> 0], [name |-> "Optz", k |-> 0], [name |-> "Eval", k |-> 0], [name |-> "Lkd", k |-> 0]}
         \cup {[name |-> "Data", k |-> k] : k \in 1 .. NData} \cup {[name |-> "Hp", k |-> k] : k \in 1 .. NHp} \cup {[name |-> "Opt", k |-> k] : k \in 1 .. NOpt}
VARIABLES obj,   \* the surrogates as the implementation has them
          shr,   \* what is shared: a memo (hp -> data), options, how many optimizations there were
          hist,  \* per surrogate the calls on it
          act,   \* the last call, with its surrogate
          ret    \* and what it returned
vars == <<obj, shr, hist, act, ret>>
None == <<>>
Shared0 == [memo |-> NoHp, md |-> 0, o |-> 0, n |-> 0]

\* the surrogate that the implementation works with
Seen(s) == IF BUG = "options_on_class" THEN [s EXCEPT !.o = shr.o] ELSE s
Opt(s) == <<"optimum", s.d, s.o>>
ImplDo(s, c) == IF BUG = "random_state" /\ c.name = "Optz" THEN [s EXCEPT !.hp = <<"optimum", s.d, s.o + 10 * shr.n>>, !.up = TRUE] ELSE Do(Seen(s), c)
ImplRet(s, c) ==
    CASE BUG = "memo_on_class" /\ c.name \in {"Eval", "Lkd"} /\ shr.memo = s.hp -> <<shr.md, s.hp>>
      [] BUG = "random_state" /\ c.name = "Optz" -> <<"optimum", s.d, s.o + 10 * shr.n>>
      [] OTHER -> Ret(Seen(s), c)
ImplShr(s, c) ==
    CASE c.name \in {"Eval", "Lkd"} /\ shr.memo # s.hp -> [shr EXCEPT !.memo = s.hp, !.md = s.d]
      [] c.name = "Data" -> [shr EXCEPT !.memo = NoHp]
      [] c.name = "Opt"  -> [shr EXCEPT !.o = c.k]
      [] c.name = "Optz" -> [shr EXCEPT !.n = 1]
      [] OTHER -> shr

Init == /\ obj = [i \in Objs |-> Fresh] /\ shr = Shared0 /\ hist = [i \in Objs |-> <<>>]
        /\ act = [i |-> 0, name |-> "Init", k |-> 0] /\ ret = None
Call(i, c) ==
    /\ hist[i] = <<>> => c.name = "New"
    /\ Len(hist[i]) < MaxLen
    /\ Able(obj[i], c)
    /\ obj' = [obj EXCEPT ![i] = ImplDo(obj[i], c)]
    /\ ret' = ImplRet(obj[i], c)
    /\ shr' = ImplShr(obj[i], c)
    /\ hist' = [hist EXCEPT ![i] = Append(@, c)]
    /\ act' = [i |-> i, name |-> c.name, k |-> c.k]
Next == \E i \in Objs, c \in Calls : Call(i, c)
Spec == Init /\ [][Next]_vars

\* each surrogate behaves as if it were alone
AsIfAlone == act.i # 0 => ret = Last(hist[act.i])
StateOfItsOwn == BUG = "none" => \A i \in Objs : obj[i] = After(hist[i])
\* a call changes no other surrogate
Untouched == [][\A i \in Objs : i # act'.i => obj'[i] = obj[i]]_vars

(* for the tours: without histories *)
Live(s) == [obj |-> obj, born |-> {i \in Objs : hist[i] # <<>>}]
View == Live(0)
Short == [i \in Objs |-> IF hist[i] = <<>> THEN <<>> ELSE <<[name |-> "New", k |-> 0]>>]
TourCall(i, c) ==
    /\ hist[i] = <<>> => c.name = "New"
    /\ Able(obj[i], c)
    /\ obj' = [obj EXCEPT ![i] = Do(obj[i], c)]
    /\ ret' = None /\ shr' = shr
    /\ hist' = [hist EXCEPT ![i] = <<[name |-> "New", k |-> 0]>>]
    /\ act' = [name |-> c.name, k |-> i * 10 + c.k, out |-> "ok"]
TourNext == \E i \in Objs, c \in Calls : TourCall(i, c)
TourSpec == Init /\ [][TourNext]_vars
Log == PrintT(ToJson(<<[obj |-> obj, hist |-> Short], act', [obj |-> obj', hist |-> [i \in Objs |-> IF hist'[i] = <<>> THEN <<>> ELSE <<[name |-> "New", k |-> 0]>>]]>>))
=================================================================================
