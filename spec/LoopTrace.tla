----------------------------- MODULE LoopTrace -----------------------------
(* Recorded runs of the real training loop are behaviours of Loop. *)
EXTENDS Loop, TraceIO
VARIABLES tid, n, s

K == Traces[tid].k
Init == tid \in 1..Len(Traces) /\ n = 0 /\ s = Start(Traces[tid].k)
Next == /\ n < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[n + 1] IN
             /\ Report(Traces[tid].id, n + 1, Guard(K, s, e))
             /\ s' = After(K, s, e)
        /\ n' = n + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, n, s>>
==============================================================================
