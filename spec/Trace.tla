-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* What all trace specifications share.  A trace is a file with one JSON   *)
(* record per event.  A trace specification consumes one event per step    *)
(* and, whatever the event says, goes on: the clauses that an event        *)
(* violates are printed, so that a verdict names what failed and the rest  *)
(* of the trace is still checked.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* cs is a sequence of <<name of a clause, does it hold>>
RECURSIVE Judge(_, _)
Judge(l, cs) == IF cs = <<>> THEN TRUE
                ELSE /\ IF Head(cs)[2] THEN TRUE ELSE PrintT("CLAUSE " \o ToString(l) \o " " \o Head(cs)[1])
                     /\ Judge(l, Tail(cs))

Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
