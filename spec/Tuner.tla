------------------------------- MODULE Tuner -------------------------------
(* A tuned parameter (C07).

   k: nv values to begin with, switch flag, length of the exploration phase,
   c (the exploration bonus; scores and c are integers in units of the run).
   Events: get(v, v2)     a value is requested; v the index of the one
                          returned, v2 that of a twin with the same seed and
                          history (living under other surroundings)
           many(n, vs)    n requests in a row, vs the distinct indices seen
           obs(idx, x)    observation x, for value idx or (-1) the last one
           add            one more value; it comes last
          explore(n), flag(f)  the exploration phase (re)starts, the switch flag
          stats(st)      the printed statistics, one record per value       *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
V(s) == 0..(Len(s.cnt) - 1)

Start(k) == [left |-> k.explore, flag |-> k.flag, last |-> 0,
             cnt |-> [i \in 1..k.nv |-> 0], sum |-> [i \in 1..k.nv |-> 0], sq |-> [i \in 1..k.nv |-> 0]]

RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN FALSE
                ELSE (a % 2 = 1 /\ b % 2 = 1) \/ BitAnd(a \div 2, b \div 2)

Num(k, s, i) == s.sum[i + 1] + k.c               \* score = Num / cnt
Better(k, s, i, j) == Num(k, s, i) * s.cnt[j + 1] >= Num(k, s, j) * s.cnt[i + 1]
Best(k, s) == CHOOSE i \in V(s) : \A j \in V(s) : Better(k, s, i, j)

(* score(i) + deviation(i) / 10 compared with the best score: 1, 0 or -1.
   With V = n (n-1) variance, n = cnt(i), m = cnt(best), D / (n m) the gap:
   deviation >= 10 gap  <=>  V n m^2 >= 100 D^2 (n - 1)                     *)
Close(k, s, i) ==
  LET b == Best(k, s)
      n == s.cnt[i + 1]
      m == s.cnt[b + 1]
      D == Num(k, s, b) * n - Num(k, s, i) * m
      W == (n * s.sq[i + 1] - s.sum[i + 1] * s.sum[i + 1]) * n * m * m
      q == 100 * (n - 1)
      \* constant observations and another value with the same score: a
      \* rounding error may decide, otherwise the best value is a candidate
      tie == \E j \in V(s) \ {i} : Better(k, s, j, b)
  IN IF D = 0 THEN (IF W > 0 \/ ~tie THEN 1 ELSE 0)
     ELSE IF n < 2 THEN -1
     ELSE IF W \div q > D * D \/ (W \div q = D * D /\ W % q > 0) THEN 1
     ELSE IF W \div q = D * D THEN 0 ELSE -1

Few(k, s) == {i \in V(s) : s.cnt[i + 1] < 4}
(* the values that may be returned, and those that must have a chance *)
May(k, s) ==
  IF s.left > 0
  THEN IF Len(s.cnt) = 2 THEN {IF BitAnd(s.flag, s.left) THEN 1 ELSE 0} ELSE V(s)
  ELSE IF Few(k, s) # {} THEN Few(k, s)
  ELSE {i \in V(s) : Close(k, s, i) >= 0}
Must(k, s) ==
  IF s.left > 0 \/ Few(k, s) # {} THEN May(k, s)
  ELSE {i \in V(s) : Close(k, s, i) = 1}

Where(s) == IF s.left > 0 THEN "exploration" ELSE "selection"

Guard(k, s, e) ==
  CASE e.op = "get" ->
         Chk("C07." \o Where(s), e.v \in May(k, s))
         \cup Chk("C07.depends_on_seed_and_history_only", e.v2 = e.v)
    [] e.op = "many" ->
         \* all n requests are in the same phase
         Chk("C07." \o Where(s), {e.vs[i] : i \in 1..Len(e.vs)} \subseteq May(k, s))
         \cup Chk("C07.every_candidate_has_a_chance", Must(k, s) \subseteq {e.vs[i] : i \in 1..Len(e.vs)})
         \cup Chk("C07.chance_at_every_request", e.n >= 25 * Cardinality(May(k, s)) * Cardinality(May(k, s)) =>
                     \A i \in Must(k, s), j \in Must(k, s) : <<i, j>> \in {e.pairs[x] : x \in 1..Len(e.pairs)})
         \cup Chk("C07.depends_on_seed_and_history_only", e.same)
    [] e.op \in {"obs", "add", "explore", "flag"} -> {}
    [] e.op = "stats" ->
         Chk("C07.credit_count", Len(e.st) = Len(s.cnt) /\ \A i \in 1..Len(e.st) : i <= Len(s.cnt) => e.st[i].n = s.cnt[i])
         \cup Chk("C07.credit_mean", \A i \in 1..Len(e.st) : i <= Len(s.cnt) =>
                     Abs(e.st[i].mean * s.cnt[i] - 1000 * s.sum[i]) <= 2 * s.cnt[i] + 2)
         \cup Chk("C07.score", \A i \in 1..Len(e.st) : i <= Len(s.cnt) /\ s.cnt[i] > 0 =>
                     Abs(e.st[i].score * s.cnt[i] - 1000 * (s.sum[i] + k.c)) <= 2 * s.cnt[i] + 2)
    [] OTHER -> {"C07.error"}

After(k, s, e) ==
  CASE e.op = "get" -> [s EXCEPT !.left = IF @ > 0 THEN @ - 1 ELSE 0, !.last = e.v]
    [] e.op = "many" -> [s EXCEPT !.left = IF @ > e.n THEN @ - e.n ELSE 0, !.last = e.last]
    [] e.op = "obs" ->
         LET i == (IF e.idx < 0 THEN s.last ELSE e.idx) + 1
         IN IF i \in 1..Len(s.cnt)
            THEN [s EXCEPT !.cnt[i] = @ + 1, !.sum[i] = @ + e.x, !.sq[i] = @ + e.x * e.x]
            ELSE s
    [] e.op = "add" -> [s EXCEPT !.cnt = Append(@, 0), !.sum = Append(@, 0), !.sq = Append(@, 0)]
    [] e.op = "explore" -> [s EXCEPT !.left = e.n]
    [] e.op = "flag" -> [s EXCEPT !.flag = e.f]
    [] OTHER -> s
==============================================================================
