------------------------------ MODULE StatMC ------------------------------
(* Welford's recurrences, in exact rational arithmetic, compute the
   statistics that Stat defines: after every push and every reset.
   Rationals are <<numerator, denominator>> with positive denominator.     *)
EXTENDS Stat
CONSTANTS Values, MaxLen
VARIABLES s,                              \* the definition
          n, om, nm, os, ns,              \* the recurrences
          len
vars == <<s, n, om, nm, os, ns, len>>
Val == {-2, -1, 0, 3}
ValBig == {-7, -2, 0, 1, 5}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(Abs(q[1]), q[2]) IN IF g = 0 THEN <<0, 1>> ELSE <<q[1] \div g, q[2] \div g>>
Add(p, q) == Norm(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
Sub(p, q) == Add(p, <<-q[1], q[2]>>)
Mul(p, q) == Norm(<<p[1] * q[1], p[2] * q[2]>>)
Zero == <<0, 1>>
K == [tolm |-> 0, tolv |-> 0]

Init == s = Start(K) /\ n = 0 /\ om = Zero /\ nm = Zero /\ os = Zero /\ ns = Zero /\ len = 0
Push(v) ==
  LET x == <<v, 1>>
      m2 == Add(om, Mul(Sub(x, om), <<1, n + 1>>))
      s2 == Add(os, Mul(Sub(x, om), Sub(x, m2)))
  IN /\ s' = After(K, s, [op |-> "push", v |-> v])
     /\ n' = n + 1
     /\ IF n = 0 THEN om' = x /\ nm' = x /\ os' = Zero /\ UNCHANGED ns
                 ELSE nm' = m2 /\ om' = m2 /\ ns' = s2 /\ os' = s2
Clear == s' = After(K, s, [op |-> "clear"]) /\ n' = 0 /\ UNCHANGED <<om, nm, os, ns>>
Next == len < MaxLen /\ len' = len + 1 /\ (Clear \/ \E v \in Values : Push(v))
Spec == Init /\ [][Next]_vars
MeanOk == n > 0 => Mul(nm, <<n, 1>>) = <<s.sum, 1>>
VarOk == n > 1 => Mul(ns, <<n, 1>>) = <<Spread(s), 1>>
CountOk == n = s.n
NonNegative == Spread(s) >= 0
==============================================================================
