------------------------------- MODULE Loop -------------------------------
(* The column generation loop (C01, C02, C03).

   The environment are the master problem, the hierarchy of subproblems and
   the clock; the system under specification is the training loop that calls
   them.  Every call the loop makes is one event:

     build                          the master model is generated
     solve(tok, imp, reset)         the restricted master is solved; tok names
                                    the dual information it returned
     upd(l, i, tok)                 subproblem i of level l gets new duals
     gen(l, i, tok, cols)           subproblem i of level l is asked
     add(col, ret)                  a column is offered, ret = accepted
     ip(ret)                        the integer master is solved
     done                           training has returned
     failed                         training has raised an error

   Guard(k, s, e) is the set of names of the clauses of the specification
   that event e breaks in state s (empty = the event is allowed); After is
   the effect of the event.  k holds the parameters of the run.  Events carry
   t, the clock when the call started, and d, its duration.                *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}

Lv(k) == 1..Len(k.levels)
Sps(k) == UNION {{l} \X (1..k.levels[l]) : l \in Lv(k)}

(* the lexicographic order in which subproblems are asked *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
First(S) == CHOOSE a \in S : \A b \in S : a = b \/ Before(a, b)

ZeroStat(k, z) == [l \in Lv(k) |-> [j \in 1..k.levels[l] |-> z]]

Start(k) ==
  [phase |-> "start",   \* start, built, update, price, offer, stop, end
   iter |-> 0, tok |-> 0, now |-> 0, t0 |-> 0,
   upd |-> {}, asked |-> {}, cur |-> <<0, 0>>, pend |-> <<>>,
   acc |-> 0,           \* columns accepted in this iteration
   nimp |-> 0, ncol |-> ZeroStat(k, 0), tsp |-> ZeroStat(k, 0),
   tm |-> 0, tadd |-> 0, tip |-> 0, ips |-> 0, ipok |-> TRUE]

Limited(k, s) == k.maxit > 0 /\ s.iter >= k.maxit
Late(k, s) == k.tlim > 0 /\ s.now - s.t0 > k.tlim
Open(k, s) == Sps(k) \ s.asked        \* not yet asked in this iteration

Priced(s) == s.phase = "price" /\ s.pend = <<>>

(* the three ways in which the loop may end *)
EndLimit(k, s) == Priced(s) /\ s.acc > 0 /\ Limited(k, s)
EndTime(k, s) == Priced(s) /\ s.acc = 0 /\ Open(k, s) # {} /\ s.upd = Sps(k) /\ Late(k, s)
EndOpt(k, s) == Priced(s) /\ s.acc = 0 /\ Open(k, s) = {} /\ s.upd = Sps(k)
LoopOver(k, s) == EndLimit(k, s) \/ EndTime(k, s) \/ EndOpt(k, s) \/ s.phase = "stop"

------------------------------------------------------------------------------
GuardBuild(k, s, e) ==
  Chk("C01.build_once_first", s.phase = "start")
  \cup Chk("C01.training_data", e.xok /\ e.yok)

GuardSolve(k, s, e) ==
  Chk("C01.solve_starts_an_iteration",
      s.phase = "built" \/ (Priced(s) /\ s.acc > 0))
  \cup Chk("C02.iteration_limit", ~Limited(k, s))
  \cup Chk("C01.master_parameters", e.par = k.rmppar)

GuardUpd(k, s, e) ==
  Chk("C01.update_before_pricing", s.phase = "price" /\ s.asked = {} /\ s.iter > 0)
  \cup Chk("C01.update_once", <<e.l, e.j>> \in Sps(k) \ s.upd)
  \cup Chk("C01.update_current_duals", e.tok = s.tok)
  \cup Chk("C01.update_data", e.xok /\ e.yok)

GuardGen(k, s, e) ==
  Chk("C01.pricing_after_updates", s.phase = "price" /\ s.upd = Sps(k))
  \cup Chk("C01.columns_offered_before_next", s.pend = <<>>)
  \cup Chk("C01.stop_after_success", s.acc = 0)
  \cup Chk("C01.level_and_list_order", Open(k, s) # {} /\ (Open(k, s) # {} => <<e.l, e.j>> = First(Open(k, s))))
  \cup Chk("C01.pricing_current_duals", e.tok = s.tok)
  \cup Chk("C01.pricing_data", e.xok /\ e.yok)
  \cup Chk("C01.pricing_parameters",
           <<e.l, e.j>> \in Sps(k) => e.par = k.params[e.l][e.j])
  \cup Chk("C02.no_pricing_after_the_time_limit", ~Late(k, s))

GuardAdd(k, s, e) ==
  Chk("C01.offer_what_was_generated", s.pend # <<>> /\ (s.pend # <<>> => e.col = Head(s.pend)))

GuardIp(k, s, e) ==
  Chk("C01.ip_after_the_loop", LoopOver(k, s))
  \cup Chk("C01.ip_once_iff_integer", k.isip /\ s.ips = 0)
  \cup Chk("C01.ip_parameters", e.par = k.ippar)

GuardDone(k, s, e) ==
  Chk("C01.all_columns_offered", s.pend = <<>>)
  \cup Chk("C02.ends_for_a_reason", LoopOver(k, s))
  \cup Chk("C01.ip_once_iff_integer", s.ips = IF k.isip THEN 1 ELSE 0)
  \cup Chk("C02.unsolved_ip_is_an_error", s.ipok)
  \cup Chk("C02.optimal_flag", e.opt = (IF s.phase = "stop" THEN s.why = "opt" ELSE EndOpt(k, s)))
  \cup Chk("C02.time_flag", e.tl = (IF s.phase = "stop" THEN s.why = "time" ELSE EndTime(k, s)))
  \cup Chk("C02.fitted", e.fitted)
  \cup Chk("C03.iterations", e.iter = s.iter /\ e.perf = s.iter)
  \cup Chk("C03.improving_iterations", e.nimp = s.nimp)
  \cup Chk("C03.columns_per_subproblem", e.ncol = s.ncol)
  \cup Chk("C03.time_per_subproblem", e.tsp = s.tsp)
  \cup Chk("C03.time_master", e.tm = s.tm)
  \cup Chk("C03.time_add", e.tadd = s.tadd)
  \cup Chk("C03.time_ip", e.tip = s.tip)
  \cup Chk("C03.time_elapsed", e.tel = s.now - s.t0)

(* an error out of training is right only if the integer master failed *)
GuardFailed(k, s, e) ==
  Chk("C02.no_error_without_cause", s.ips = 1 /\ ~s.ipok)
  \cup Chk("C02.failed_is_not_fitted", ~e.fitted)

Guard(k, s, e) ==
  CASE e.op = "build" -> GuardBuild(k, s, e)
    [] e.op = "solve" -> GuardSolve(k, s, e)
    [] e.op = "upd" -> GuardUpd(k, s, e)
    [] e.op = "gen" -> GuardGen(k, s, e)
    [] e.op = "add" -> GuardAdd(k, s, e)
    [] e.op = "ip" -> GuardIp(k, s, e)
    [] e.op = "done" -> GuardDone(k, s, e)
    [] e.op = "failed" -> GuardFailed(k, s, e)
    [] OTHER -> {"C01.unknown_call"}

------------------------------------------------------------------------------
After(k, s, e) ==
  CASE e.op = "build" ->
         [s EXCEPT !.phase = "built", !.now = e.t + e.d]
    [] e.op = "solve" ->
         [s EXCEPT !.phase = "price", !.iter = @ + 1, !.tok = e.tok,
                   !.now = e.t + e.d, !.upd = {}, !.asked = {}, !.acc = 0, !.pend = <<>>,
                   !.tm = @ + e.d, !.nimp = @ + (IF e.imp THEN 1 ELSE 0),
                   !.t0 = IF e.reset THEN e.t + e.d ELSE @]
    [] e.op = "upd" ->
         [s EXCEPT !.upd = @ \cup {<<e.l, e.j>>}, !.now = e.t + e.d,
                   !.tsp = IF <<e.l, e.j>> \in Sps(k) THEN [@ EXCEPT ![e.l][e.j] = @ + e.d] ELSE @]
    [] e.op = "gen" ->
         [s EXCEPT !.asked = @ \cup {<<e.l, e.j>>}, !.now = e.t + e.d,
                   !.cur = <<e.l, e.j>>, !.pend = e.cols,
                   !.tsp = IF <<e.l, e.j>> \in Sps(k) THEN [@ EXCEPT ![e.l][e.j] = @ + e.d] ELSE @]
    [] e.op = "add" ->
         [s EXCEPT !.pend = IF @ = <<>> THEN @ ELSE Tail(@), !.now = e.t + e.d, !.tadd = @ + e.d,
                   !.acc = @ + (IF e.ret THEN 1 ELSE 0),
                   !.ncol = IF e.ret /\ s.cur \in Sps(k)
                            THEN [@ EXCEPT ![s.cur[1]][s.cur[2]] = @ + 1] ELSE @]
    [] e.op = "ip" ->
         LET w == IF EndOpt(k, s) THEN "opt" ELSE IF EndTime(k, s) THEN "time" ELSE "limit"
         IN [x \in DOMAIN s \cup {"why"} |->
               CASE x = "why" -> w
                 [] x = "phase" -> "stop"
                 [] x = "now" -> e.t + e.d
                 [] x = "tip" -> s.tip + e.d
                 [] x = "ips" -> s.ips + 1
                 [] x = "ipok" -> e.ret
                 [] OTHER -> s[x]]
    [] OTHER -> [s EXCEPT !.phase = "end"]
==============================================================================
