------------------------------ MODULE RescaleIter -----------------------------
(***************************************************************************)
(* Methods that rescale the data during the optimization: pass after pass  *)
(* the hyperparameters are optimized, the data are rescaled such that the  *)
(* lengthscales become equal, and the next pass starts there.  dist is the *)
(* sequence of distances (of the optimum of each pass to the line of equal *)
(* lengthscales).  The passes end when a distance is below the tolerance   *)
(* or their number is reached; the pass with the least distance counts.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Le(_, _)

\* Is the sequence of passes complete, and is no pass superfluous?
Done(dist, maxit, tol)     == Len(dist) >= maxit \/ ~Le(tol, dist[Len(dist)])
Complete(dist, maxit, tol) == Len(dist) >= 1 /\ Done(dist, maxit, tol) /\ \A k \in 1 .. Len(dist) - 1 : ~Done(SubSeq(dist, 1, k), maxit, tol)
\* the first pass with the least distance
Chosen(dist) == CHOOSE k \in 1 .. Len(dist) : (\A j \in 1 .. Len(dist) : Le(dist[k], dist[j])) /\ \A j \in 1 .. k - 1 : ~Le(dist[j], dist[k])
===============================================================================
