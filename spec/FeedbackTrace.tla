---- MODULE FeedbackTrace ----
(* Recorded runs of the real code are behaviours of Feedback. *)
EXTENDS Feedback, TraceIO
VARIABLES tid, n, s
Init == tid \in 1..Len(Traces) /\ n = 0 /\ s = Start(Traces[tid].k)
Next == /\ n < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[n + 1] IN
             /\ Report(Traces[tid].id, n + 1, Guard(Traces[tid].k, s, e))
             /\ s' = After(Traces[tid].k, s, e)
        /\ n' = n + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, n, s>>
====
