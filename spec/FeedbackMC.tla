---------------------------- MODULE FeedbackMC ----------------------------
(* All outcomes of a solver call and all orders of choices and credits. *)
EXTENDS Feedback
CONSTANTS NP, Ts, Os, MaxCalls
VARIABLES k, s
OsQ == {-4, -1, 0, 2, 5}
OsT == {-7, -4, -1, 0, 1, 2, 5, 9}
Init == k = [np |-> NP, tick |-> 10, tol |-> 4] /\ s = Start(k)
Do(e) == Guard(k, s, e) = {} /\ s' = After(k, s, e) /\ UNCHANGED k
Next ==
  \/ \E l \in {1, 30} : s.calls < MaxCalls /\ Do([op |-> "call", lim |-> l])
  \/ \E p \in 1..k.np, v \in 0..1 : s.chosen[p] = -1 /\ Do([op |-> "choose", p |-> p, v |-> v])
  \/ \E st \in {"optimal", "feasible", "other"}, t \in Ts, o \in Os, b \in Os :
       /\ t <= 10 * s.lim /\ ~(st = "feasible" /\ o = 0 /\ b = 0) /\ (st # "feasible" => o = 0 /\ b = 0)
       /\ Do([op |-> "solve", lim |-> s.lim, val |-> s.chosen, st |-> st, t |-> t, o |-> o, b |-> b])
  \/ \E p \in 1..k.np : /\ p \notin s.credited
       /\ Do([op |-> "credit", p |-> p, v |-> s.used[p],
              x |-> (100000 * TimeScore(k, s)[1]) \div TimeScore(k, s)[2] + (100000 * GapScore(s)[1]) \div GapScore(s)[2]])
  \/ Do([op |-> "ret", nt |-> s.calls, ng |-> s.calls, t |-> s.t, g |-> (100000 * GapScore(s)[1]) \div GapScore(s)[2]])
Spec == Init /\ [][Next]_<<k, s>>
(* a proven optimum is at least as good as anything else; scores are within 0..2 *)
Range == s.phase = "solved" =>
  /\ 0 <= GapScore(s)[1] /\ GapScore(s)[1] <= GapScore(s)[2]
  /\ 0 <= TimeScore(k, s)[1] /\ TimeScore(k, s)[1] <= TimeScore(k, s)[2]
OptimalBest == s.phase = "solved" /\ s.st = "optimal" => GapScore(s)[1] = 0
CreditedWereUsed == \A p \in s.credited : s.used[p] = s.chosen[p]
==============================================================================
