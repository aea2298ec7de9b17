---------------------------- MODULE MC_RescaleIter ----------------------------
(* The iteration as a state machine that alternates between the optimizer (whose result is arbitrary) and the rescaling.
   A scaling and a vector of hyperparameters belong together when they stem from the same pass; the condition number and the
   closed-form hyperparameters belong to a pair <<hyperparameters, scaling>>. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIt, D, BUG
VARIABLES pc, maxit, dist, xs, hp, keep, cond, model, row
vars == <<pc, maxit, dist, xs, hp, keep, cond, model, row>>
LeN(a, b) == a <= b
R == INSTANCE RescaleIter WITH Le <- LeN
Tol == 1
None == <<9, 9>>
\* xs, hp: number of the pass after which the scaling in force and the hyperparameters were obtained (0: before)
Init == /\ pc = "optimize" /\ maxit \in 1 .. MaxIt /\ dist = <<>> /\ xs = 0 /\ hp = 0 /\ keep = <<>>
        /\ cond = None /\ model = None /\ row = <<None, None>>
\* the optimizer works in the scaling xs; its result has some distance.  A single pass means that no rescaling is done
Optimize == /\ pc = "optimize"
            /\ \E e \in D : dist' = Append(dist, e)
            /\ cond' = <<Len(dist) + 1, xs>>
            /\ pc' = IF maxit = 1 THEN "close" ELSE "rescale"
            /\ hp' = Len(dist) + 1
            /\ UNCHANGED <<maxit, xs, keep, model, row>>
Rescale == /\ pc = "rescale"
           /\ xs' = Len(dist)
           /\ keep' = Append(keep, <<Len(dist), Len(dist)>>)
           /\ pc' = IF R!Done(dist, maxit, Tol) THEN "choose" ELSE "optimize"
           /\ UNCHANGED <<maxit, dist, hp, cond, model, row>>
Choose == /\ pc = "choose"
          /\ LET k == IF BUG = "last" THEN Len(dist) ELSE R!Chosen(dist)
             IN  /\ hp' = keep[k][1]
                 /\ xs' = IF BUG = "scaling_stays" THEN xs ELSE keep[k][2]
                 /\ cond' = IF BUG = "cond_stays" THEN cond ELSE <<hp', xs'>>
          /\ pc' = "close"
          /\ UNCHANGED <<maxit, dist, keep, model, row>>
Close == /\ pc = "close"
         /\ model' = <<hp, xs>> /\ row' = <<<<hp, xs>>, cond>>
         /\ pc' = "done" /\ UNCHANGED <<maxit, dist, xs, hp, keep, cond>>
Next == Optimize \/ Rescale \/ Choose \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Fin == pc = "done"
Together  == Fin => (IF maxit = 1 THEN hp = 1 /\ xs = 0 ELSE hp = xs)
Consistent == Fin => model = <<hp, xs>> /\ row = <<<<hp, xs>>, <<hp, xs>>>>
Least     == Fin /\ maxit > 1 => \A j \in 1 .. Len(dist) : dist[hp] <= dist[j]
NoMore    == Fin => Len(dist) <= maxit /\ R!Complete(dist, maxit, Tol)
Ends      == <>Fin
Log       == Fin => PrintT(ToJson([maxit |-> maxit, dist |-> dist]))
===============================================================================
