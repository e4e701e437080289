------------------------------ MODULE Feedback ------------------------------
(* Solving a subproblem model tunes the solver parameters (C08).

   One solver call is a sequence of events of the code:
     call(lim)                        solve_model is called
     choose(p, v)                     the tuner of parameter p returns v
     solve(lim, val, st, t, o, b)     the solver runs with limit lim and
                                      parameter values val; st its outcome, t
                                      the time, o and b objective and bound
     credit(p, v, x)                  x (times -10^5) is credited to value v
     ret(nt, ng, t, g)                back: lengths of the recorded lists of
                                      times and gaps, and their last entries
   The tuned parameters are 1..k.np; times are integers in ticks of 1/k.tick
   seconds.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x < y THEN y ELSE x

Start(k) == [phase |-> "idle", lim |-> 0, chosen |-> [p \in 1..k.np |-> -1], used |-> [p \in 1..k.np |-> -1],
             credited |-> {}, st |-> "", t |-> 0, o |-> 0, b |-> 0, calls |-> 0]

(* time score and gap score as fractions <<numerator, denominator>> *)
TimeScore(k, s) == IF s.st = "optimal" THEN <<s.t, k.tick * s.lim>> ELSE <<1, 1>>
GapScore(s) ==
  IF s.st = "optimal" THEN <<0, 1>>
  ELSE IF s.st = "feasible" /\ ((s.o >= 0 /\ s.b >= 0) \/ (s.o <= 0 /\ s.b <= 0))
       THEN <<Abs(s.o - s.b), Max(Abs(s.o), Abs(s.b))>>
       ELSE <<1, 1>>
(* x = 10^5 q, up to the rounding of divisions *)
Same(x, q) == Abs(x - (100000 * q[1]) \div q[2]) <= 3
SameSum(k, x, q, r) == Abs(x - (100000 * q[1]) \div q[2] - (100000 * r[1]) \div r[2]) <= k.tol

Guard(k, s, e) ==
  CASE e.op = "call" -> Chk("C08.protocol", s.phase = "idle")
    [] e.op = "choose" -> Chk("C08.choose_before_solving", s.phase = "call" /\ e.p \in 1..k.np)
    [] e.op = "solve" ->
         Chk("C08.one_solve_per_call", s.phase = "call")
         \cup Chk("C08.time_limit", e.lim = s.lim)
         \cup Chk("C08.parameter_chosen_by_the_tuner",
                  Len(e.val) = k.np /\ \A p \in 1..k.np : p <= Len(e.val) => e.val[p] = s.chosen[p] /\ s.chosen[p] >= 0)
    [] e.op = "credit" ->
         Chk("C08.credit_after_solving", s.phase = "solved")
         \cup Chk("C08.credit_once", e.p \in (1..k.np) \ s.credited)
         \cup Chk("C08.credit_value_used", e.p \in 1..k.np => e.v = s.used[e.p])
         \cup Chk("C08.credit_score", s.phase = "solved" => SameSum(k, e.x, TimeScore(k, s), GapScore(s)))
    [] e.op = "ret" ->
         Chk("C08.solved", s.phase = "solved")
         \cup Chk("C08.credit_all", s.credited = 1..k.np)
         \cup Chk("C08.recorded_once", e.nt = s.calls /\ e.ng = s.calls)
         \cup Chk("C08.recorded_time", e.t = s.t)
         \cup Chk("C08.recorded_gap", s.phase = "solved" => Same(e.g, GapScore(s)))
    [] OTHER -> {"C08.error"}

After(k, s, e) ==
  CASE e.op = "call" -> [s EXCEPT !.phase = "call", !.lim = e.lim, !.chosen = [p \in 1..k.np |-> -1],
                                  !.credited = {}, !.calls = @ + 1]
    [] e.op = "choose" -> IF e.p \in 1..k.np THEN [s EXCEPT !.chosen[e.p] = e.v] ELSE s
    [] e.op = "solve" -> [s EXCEPT !.phase = "solved", !.used = [p \in 1..k.np |-> IF p <= Len(e.val) THEN e.val[p] ELSE -1],
                                   !.st = e.st, !.t = e.t, !.o = e.o, !.b = e.b]
    [] e.op = "credit" -> [s EXCEPT !.credited = @ \cup {e.p}]
    [] e.op = "ret" -> [s EXCEPT !.phase = "idle"]
    [] OTHER -> s
==============================================================================
