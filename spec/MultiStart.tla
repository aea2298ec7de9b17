------------------------------ MODULE MultiStart ------------------------------
(***************************************************************************)
(* The optimization of the hyperparameters from several starts.  A result  *)
(* r has the objective fun (the negative likelihood, or the condition      *)
(* number if the factorization fails at it), the condition number cond and *)
(* the flag ok of the optimizer.  Le is the order of the numbers.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Le(_, _)

Feasible(r, usecstr, limit) == {j \in 1 .. Len(r) : ~usecstr \/ ~Le(limit, r[j].cond)}
Candidates(r, usecstr, limit) == LET F == Feasible(r, usecstr, limit) IN IF F # {} THEN F ELSE 1 .. Len(r)
\* any of the best candidates (they are equally good)
Best(r, usecstr, limit) == LET C == Candidates(r, usecstr, limit) IN {j \in C : \A i \in C : Le(r[j].fun, r[i].fun)}
===============================================================================
