---- MODULE ExpTrace ----
(* Recorded runs of the real code are behaviours of Exp. *)
EXTENDS Exp, TraceIO
VARIABLES tid, n, s
Init == tid \in 1..Len(Traces) /\ n = 0 /\ s = 0
Next == /\ n < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[n + 1] IN
             /\ Report(Traces[tid].id, n + 1, XGuard(Traces[tid].k, s, e))
             /\ s' = s
        /\ n' = n + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, n, s>>
====
