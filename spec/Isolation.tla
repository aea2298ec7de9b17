------------------------------- MODULE Isolation -------------------------------
(***************************************************************************)
(* Several surrogates that are used at once.  One of them is described by  *)
(* d (data, 0: none), o (options, 0: the defaults), hp (hyperparameters,   *)
(* a term) and up (is the model set up).  Do and Ret say what a call does  *)
(* to *its* surrogate and what it returns: nothing else has a part in it.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
NoHp == <<"none">>
Fresh == [d |-> 0, o |-> 0, hp |-> NoHp, up |-> FALSE]
Able(s, c) ==
    CASE c.name \in {"New", "Opt", "Data"} -> TRUE
      [] c.name \in {"Hp", "Optz"} -> s.d # 0
      [] c.name = "Lkd" -> s.d # 0 /\ s.hp # NoHp
      [] c.name = "Eval" -> s.up
      [] OTHER -> TRUE
Do(s, c) ==
    CASE c.name = "New"  -> Fresh
      [] c.name = "Opt"  -> [s EXCEPT !.o = c.k]
      [] c.name = "Data" -> [s EXCEPT !.d = c.k, !.up = FALSE]
      [] c.name = "Hp"   -> [s EXCEPT !.hp = <<"given", c.k>>, !.up = TRUE]
      [] c.name = "Optz" -> [s EXCEPT !.hp = <<"optimum", s.d, s.o>>, !.up = TRUE]
      [] OTHER -> s
Ret(s, c) ==
    CASE c.name = "New"  -> <<"defaults", 0>>
      [] c.name = "Optz" -> <<"optimum", s.d, s.o>>
      [] c.name \in {"Eval", "Lkd"} -> <<s.d, s.hp>>
      [] OTHER -> <<>>
\* the state after a sequence of calls on one surrogate
RECURSIVE After(_)
After(h) == IF h = <<>> THEN Fresh ELSE Do(After(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
\* what the last one returns
Last(h) == Ret(After(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
===============================================================================
