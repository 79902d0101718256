----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A trace is a sequence of recorded events; TLC consumes it one event per
   step.  Each specific trace module defines Clauses(e, s), the sequence of <<clause name, holds>> that the shared
   specification imposes on event e in abstract state s, and Apply(e, s), the specification's successor state.
   Rejected clauses are collected (not stopped at), so that a verdict is total.                                     *)
EXTENDS Integers, Sequences, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")

RECURSIVE Rejected(_, _)
Rejected(cs, k) == IF k > Len(cs) THEN <<>>
                   ELSE (IF cs[k][2] THEN <<>> ELSE <<cs[k][1]>>) \o Rejected(cs, k + 1)
=============================================================================
