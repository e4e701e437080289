------------------------------ MODULE TunerMC ------------------------------
(* Exhaustive check of the tuner on short histories: there is always a
   choice, the best value is always among the choices, exploration ends, and
   the under-observed values come first.                                   *)
EXTENDS Tuner, TLC, Json
CONSTANTS NVs, Flags, Explores, Scores, MaxOps, Late, Gen
VARIABLES k, s, hist, gets, obs
vars == <<k, s, hist, gets, obs>>
Sc == {-2, 1}
ScGen == {-1, 1}
Init == /\ k \in {[nv |-> n, flag |-> f, explore |-> x, c |-> 1] : n \in NVs, f \in Flags, x \in Explores}
        /\ s = Start(k) /\ hist = <<>> /\ gets = 0 /\ obs = 0
Note(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Do(e) == Guard(k, s, e) = {} /\ s' = After(k, s, e) /\ UNCHANGED k
(* when only the environment matters (Gen), the answer is not enumerated *)
Get == /\ \E v \in V(s) : (Gen => v = CHOOSE x \in May(k, s) : TRUE) /\ Do([op |-> "get", v |-> v, v2 |-> v])
       /\ gets' = gets + 1 /\ UNCHANGED obs /\ Note([get |-> TRUE])
Obs == \E x \in Scores, i \in -1..(Len(s.cnt) - 1) :
         /\ Do([op |-> "obs", idx |-> i, x |-> x]) /\ obs' = obs + 1 /\ UNCHANGED gets /\ Note([idx |-> i, x |-> x])
(* at most one value comes late, exploration is restarted at most once *)
Add == /\ Late /\ Len(s.cnt) = k.nv
       /\ Do([op |-> "add"]) /\ UNCHANGED <<gets, obs>> /\ Note([add |-> TRUE])
Again == /\ Late /\ s.flag = k.flag
         /\ \E f \in Flags \ {k.flag} : s' = [After(k, s, [op |-> "explore", n |-> 1]) EXCEPT !.flag = f]
         /\ UNCHANGED <<k, gets, obs>> /\ Note([again |-> s'.flag])
Len0 == gets + obs
PrintScript == IF Gen /\ gets' + obs' = MaxOps /\ gets + obs < MaxOps THEN PrintT("SCRIPT " \o ToJson([k |-> k, h |-> hist'])) ELSE TRUE
Next == Len0 < MaxOps /\ (Get \/ Obs \/ Add \/ Again) /\ PrintScript
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
AlwaysAChoice == May(k, s) # {} /\ Must(k, s) \subseteq May(k, s)
BestIsAChoice == s.left = 0 /\ Few(k, s) = {} => \A i \in V(s) : (\A j \in V(s) : Better(k, s, i, j)) => i \in May(k, s)
ExplorationLength == s.flag = k.flag => s.left = IF gets >= k.explore THEN 0 ELSE k.explore - gets
EveryObservationOnce == Total(s.cnt) = obs
FewFirst == s.left = 0 /\ Few(k, s) # {} => May(k, s) = Few(k, s)
==============================================================================
