------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded traces.  A trace is a record with id, k (the constants
   of the run) and ev (the events).  The trace modules run every trace through
   Guard and After of the specification: one behaviour per trace.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE).traces

(* One line per broken event; the checker reads these lines. *)
Report(id, n, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("VIOL " \o ToJson([id |-> id, n |-> n, bad |-> bad]))
==============================================================================
