------------------------------- MODULE Stat -------------------------------
(* Running statistics (C06).

   Events: push(v), clear, read(n, mean, var, std).  Values are integers in
   units u around an offset b (both belong to the recorded run, not to the
   specification: the reader subtracts b and divides by u).  The statistics
   are defined by the sequence of values pushed since the last reset, through
   its length, sum and sum of squares.  A read reports n, 1000 * n * mean,
   and 100 * n * (n - 1) times the variance and the squared deviation.     *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

Start(k) == [n |-> 0, sum |-> 0, sq |-> 0]

(* n (n - 1) times the sample variance *)
Spread(s) == IF s.n < 2 THEN 0 ELSE s.n * s.sq - s.sum * s.sum

Guard(k, s, e) ==
  CASE e.op = "push" -> {}
    [] e.op = "clear" -> {}
    [] e.op = "read" ->
         Chk("C06.count", e.n = s.n)
         \cup Chk("C06.mean", Abs(e.mean - 1000 * s.sum) <= k.tolm)
         \cup Chk("C06.variance", Abs(e.var - 100 * Spread(s)) <= k.tolv)
         \cup Chk("C06.standard_deviation", Abs(e.std - 100 * Spread(s)) <= k.tolv)
    [] OTHER -> {"C06.error"}

After(k, s, e) ==
  CASE e.op = "push" -> [n |-> s.n + 1, sum |-> s.sum + e.v, sq |-> s.sq + e.v * e.v]
    [] e.op = "clear" -> [n |-> 0, sum |-> 0, sq |-> 0]
    [] OTHER -> s
==============================================================================
