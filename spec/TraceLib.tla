------------------------------ MODULE TraceLib ------------------------------
(* Validation of recorded behaviours.  The trace file has one JSON object    *)
(* per line, a history with a field ev holding its events in order.  All     *)
(* histories are validated in one TLC run; TLC's state is the history        *)
(* number, the position in it and the specification state s.  A verdict is   *)
(* a set of names of violated clauses; it is printed, never raised, so that  *)
(* the whole trace is always decided.  The clause name "?" means that exact  *)
(* arithmetic could not represent the expectation.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
NH == Len(Hist)

Report(h, i, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("@@BAD|" \o ToString(h) \o "|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
