-------------------------------- MODULE Bdr --------------------------------
(* Boolean decision rules: master problem, pricing, prediction (C09 - C15).

   k: X   rows of 0/1 values (features are numbered from 0)
      y   labels 0/1
      C   bound on the complexity, p = pn / pd the cost of a missed positive
      S   scale of observed real numbers, tol the tolerance in these units
   A clause is a sequence of features; only its set of features matters.

   Events (m is the exported model after the call, see MasterIs):
      build(m)  rebuild(m)  add(f, ret, err, m)
      solve(cc, cs, obj, w, xi, m)   the restricted master is solved
      ip(ex, m)                      the integer master is solved
      price(D, q, cc, cs, cols)      exact pricing, duals are multiples of 1/q
      heur(K, q, cc, cs, cols)       heuristic pricing
      predict(ex, rows, out)         prediction with explanation ex
      fitted(...)                    training of a classifier has ended      *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Feat(k) == 0..(k.nf - 1)
Sat(row, f) == \A j \in Range(f) : row[j + 1] = 1
SatSet(row, F) == \A j \in F : row[j + 1] = 1
One(b) == IF b THEN 1 ELSE 0
RECURSIVE PosOf(_, _)
PosOf(y, i) == IF i > Len(y) THEN <<>> ELSE (IF y[i] = 1 THEN <<i>> ELSE <<>>) \o PosOf(y, i + 1)
Pos(k) == PosOf(k.y, 1)                         \* the positive rows, in data order
Neg(k) == {i \in 1..Len(k.y) : k.y[i] = 0}
IsClause(k, f) == \A i \in 1..Len(f) : f[i] \in Feat(k)

NegCost(k, f) == Cardinality({i \in Neg(k) : Sat(k.X[i], f)})
Cover(k, f) == LET P == Pos(k) IN [j \in 1..Len(P) |-> One(Sat(k.X[P[j]], f))]
Cx(f) == Cardinality(Range(f)) + 1

------------------------------------------------------------------------------
(* The master problem of the documentation, for a set of clauses. *)
ClauseColumn(k, c) ==
  /\ c.obj = NegCost(k, c.f) * k.S
  /\ c.cov = [j \in 1..Len(Pos(k)) |-> One(Sat(k.X[Pos(k)[j]], c.f))]
  /\ c.cx = Cx(c.f)
  /\ c.lb = 0 /\ c.ub >= 1000 /\ c.int
XiColumn(k, x, j) ==
  /\ Abs(x.obj * k.pd - k.pn * k.S) <= k.pd
  /\ x.cov = [i \in 1..Len(Pos(k)) |-> One(i = j)]
  /\ x.cx = 0 /\ x.lb = 0 /\ x.ub >= 1000 /\ x.int
MasterIs(k, cl, m) ==
  LET np == Len(Pos(k)) IN
  Chk("C09.columns_of_the_clauses",
      /\ Len(m.cl) = Len(cl)
      /\ \A i \in 1..Len(m.cl) : IsClause(k, m.cl[i].f)
      /\ {Range(m.cl[i].f) : i \in 1..Len(m.cl)} = {Range(cl[i]) : i \in 1..Len(cl)})
  \cup Chk("C09.clause_twice", \A i, j \in 1..Len(m.cl) : i # j => Range(m.cl[i].f) # Range(m.cl[j].f))
  \cup Chk("C09.clause_coefficients", \A i \in 1..Len(m.cl) : IsClause(k, m.cl[i].f) => ClauseColumn(k, m.cl[i]))
  \cup Chk("C09.penalty_columns", Len(m.xi) = np /\ \A j \in 1..Len(m.xi) : j <= np => XiColumn(k, m.xi[j], j))
  \cup Chk("C09.nothing_else", m.nv = np + Len(cl) /\ m.nc = np + 1 /\ m.min /\ m.off = 0)
  \cup Chk("C09.cover_bounds", Len(m.sat) = np /\ \A j \in 1..Len(m.sat) : m.sat[j].lb = 1 /\ m.sat[j].ub >= 1000)
  \cup Chk("C09.complexity_bound", m.cxub = k.C /\ m.cxlb <= 0)

(* reduced cost of a clause in units 1/q, duals cc and cs in the same units *)
Reduced(k, q, cc, cs, F) ==
  q * Cardinality({i \in Neg(k) : SatSet(k.X[i], F)})
  - Sum([j \in 1..Len(Pos(k)) |-> IF SatSet(k.X[Pos(k)[j]], F) THEN cs[j] ELSE 0])
  + cc * (Cardinality(F) + 1)
RECURSIVE UpTo(_, _)
UpTo(S, d) == IF d <= 0 THEN {{}} ELSE LET P == UpTo(S, d - 1) IN P \cup {F \cup {x} : F \in P, x \in S}
Clauses(k, D) == UpTo(Feat(k), Min(D, k.nf))        \* the clauses of at most D features
SetMin(T) == CHOOSE x \in T : \A z \in T : x <= z

(* cost of a set of clauses (as feature sets), times pd *)
RuleCost(k, R) ==
  k.pn * Cardinality({i \in Range(Pos(k)) : ~\E F \in R : SatSet(k.X[i], F)})
  + k.pd * Cardinality({x \in Neg(k) \X R : SatSet(k.X[x[1]], x[2])})
RECURSIVE SumOver(_, _)
SumOver(f, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE z \in T : TRUE IN f[x] + SumOver(f, T \ {x})
RuleCx(R) == SumOver([F \in R |-> Cardinality(F) + 1], R)
ClauseSets(cl) == {Range(cl[i]) : i \in 1..Len(cl)}
Admissible(k, cl) == {R \in SUBSET ClauseSets(cl) : RuleCx(R) <= k.C}

DualsOk(k, cl, e) ==
  LET np == Len(Pos(k)) IN
  IF Len(e.cs) # np THEN {"C10.one_dual_per_positive_row"}
  ELSE Chk("C10.duals_non_negative", e.cc >= -3 /\ \A j \in 1..np : e.cs[j] >= -3)
       \cup Chk("C10.no_clause_prices_out", \A i \in 1..Len(cl) : Reduced(k, k.S, e.cc, e.cs, Range(cl[i])) >= -k.tol)
       \cup Chk("C10.no_penalty_prices_out", \A j \in 1..np : e.cs[j] * k.pd <= k.pn * k.S + k.tol * k.pd)
       \cup Chk("C10.dual_objective", Abs(Sum(e.cs) - k.C * e.cc - e.obj) <= k.tol)

PrimalOk(k, cl, e) ==
  \* the reported LP objective is that of a feasible solution of the master
  LET np == Len(Pos(k)) IN
  IF Len(e.w) # Len(cl) \/ Len(e.xi) # np THEN {"C10.solution_shape"}
  ELSE Chk("C10.lp_solution_feasible",
           /\ \A i \in 1..Len(cl) : e.w[i] >= -k.tol
           /\ \A j \in 1..np : /\ e.xi[j] >= -k.tol
                               /\ e.xi[j] + Sum([i \in 1..Len(cl) |-> e.w[i] * One(Sat(k.X[Pos(k)[j]], cl[i]))]) >= k.S - k.tol
           /\ Sum([i \in 1..Len(cl) |-> e.w[i] * Cx(cl[i])]) <= k.C * k.S + k.tol)
       \cup Chk("C10.lp_objective",
           Abs(k.pd * (Sum([i \in 1..Len(cl) |-> e.w[i] * NegCost(k, cl[i])]) - e.obj) + k.pn * Sum(e.xi))
             <= k.tol * (k.pd + k.pn) + k.pd * Sum([i \in 1..Len(cl) |-> IF e.w[i] = 0 THEN 0 ELSE NegCost(k, cl[i])]))

IpOk(k, cl, e) ==
  LET R == ClauseSets(e.ex) IN
  Chk("C13.generated_clauses_only", R \subseteq ClauseSets(cl) /\ Cardinality(R) = Len(e.ex))
  \cup Chk("C13.complexity", RuleCx(R) <= k.C)
  \cup Chk("C13.best_selection",
           R \subseteq ClauseSets(cl) /\ Len(cl) <= k.maxip =>
             LET c == RuleCost(k, R) IN \A T \in Admissible(k, cl) : c <= RuleCost(k, T))

------------------------------------------------------------------------------
Start(k) == [built |-> FALSE, cl |-> <<>>, cc |-> 0, cs |-> <<>>]   \* cc, cs: the last duals

GuardAdd(k, s, e) ==
  LET new == e.f # <<>> /\ Range(e.f) \notin ClauseSets(s.cl) IN
  Chk("C09.accepts_new_clauses", new => e.ret /\ ~e.err)
  \cup Chk("C09.rejects_empty_and_known_clauses", ~new => ~e.ret)

GuardPrice(k, e) ==
  LET best == SetMin({Reduced(k, e.q, e.cc, e.cs, F) : F \in Clauses(k, e.D)}) IN
  Chk("C11.nothing_when_nothing_improves", best >= 0 => e.cols = <<>>)
  \cup Chk("C11.finds_an_improving_clause", best < 0 => Len(e.cols) >= 1)
  \cup Chk("C11.clause_well_formed", \A i \in 1..Len(e.cols) :
              IsClause(k, e.cols[i]) /\ Cardinality(Range(e.cols[i])) = Len(e.cols[i]) /\ Len(e.cols[i]) <= e.D)
  \cup Chk("C11.best_clause", best < 0 => \A i \in 1..Len(e.cols) :
              IsClause(k, e.cols[i]) => Reduced(k, e.q, e.cc, e.cs, Range(e.cols[i])) = best)

GuardHeur(k, e) ==
  LET want == {F \in Clauses(k, e.K) : F # {} /\ Reduced(k, e.q, e.cc, e.cs, F) < 0}
      got == {Range(e.cols[i]) : i \in 1..Len(e.cols)}
  IN Chk("C12.every_improving_clause", want \subseteq got)
     \cup Chk("C12.nothing_else", got \subseteq want)
     \cup Chk("C12.exactly_once", Cardinality(got) = Len(e.cols) /\
                 \A i \in 1..Len(e.cols) : Cardinality(Range(e.cols[i])) = Len(e.cols[i]))

Positive(ex, row) == One(\E i \in 1..Len(ex) : Sat(row, ex[i]))
GuardPredict(k, e) ==
  Chk("C14.prediction", Len(e.out) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : i <= Len(e.out) => e.out[i] = Positive(e.ex, e.rows[i]))

(* The same inside of a training run: the duals are those of the last master
   solve, in units of 1/k.S and rounded; the solver may stop at a relative gap. *)
GuardFPrice(k, s, e) ==
  IF Len(s.cs) # Len(Pos(k)) THEN {}      \* C10.one_dual_per_positive_row
  ELSE
  LET V(F) == Reduced(k, k.S, s.cc, s.cs, F)
      best == SetMin({V(F) : F \in Clauses(k, e.D)})
      slack == k.tol + Abs(best) \div 5000
  IN
  Chk("C11.clause_well_formed", \A i \in 1..Len(e.cols) :
        IsClause(k, e.cols[i]) /\ Cardinality(Range(e.cols[i])) = Len(e.cols[i]) /\ Len(e.cols[i]) <= e.D)
  \cup Chk("C11.nothing_when_nothing_improves", best >= k.tol => e.cols = <<>>)
  \cup Chk("C11.finds_an_improving_clause", best < -slack => Len(e.cols) >= 1)
  \cup Chk("C11.best_clause", \A i \in 1..Len(e.cols) : IsClause(k, e.cols[i]) =>
        V(Range(e.cols[i])) <= Min(best + slack, k.tol))
GuardFHeur(k, s, e) ==
  IF Len(s.cs) # Len(Pos(k)) THEN {}
  ELSE
  LET V(F) == Reduced(k, k.S, s.cc, s.cs, F)
      want == {F \in Clauses(k, e.K) : F # {} /\ V(F) < -k.tol}
      can == {F \in Clauses(k, e.K) : F # {} /\ V(F) < k.tol}
      got == {Range(e.cols[i]) : i \in 1..Len(e.cols)}
  IN Chk("C12.every_improving_clause", want \subseteq got)
     \cup Chk("C12.nothing_else", got \subseteq can)
     \cup Chk("C12.exactly_once", Cardinality(got) = Len(e.cols) /\
                 \A i \in 1..Len(e.cols) : Cardinality(Range(e.cols[i])) = Len(e.cols[i]))

(* e: gen the clauses offered (in order), cc, cs, obj the last duals and LP
   objective, opt the flag, ex the explanation, nolimit: there was no limit  *)
GuardFitted(k, e) ==
  LET np == Len(Pos(k))
      all == <<(<<>>)>> \o e.gen
      R == ClauseSets(e.ex)
      c == RuleCost(k, R)
  IN Chk("C15.optimality_reported", e.nolimit => e.opt)
     \cup Chk("C15.no_clause_twice", Cardinality(ClauseSets(e.gen)) = Len(e.gen))
     \cup Chk("C15.clauses_well_formed", \A i \in 1..Len(e.gen) : IsClause(k, e.gen[i]) /\ Len(e.gen[i]) >= 1)
     \cup (IF Len(e.cs) # np THEN {"C15.duals"}
           ELSE Chk("C15.no_clause_improves", e.opt => \A F \in Clauses(k, k.C) : Reduced(k, k.S, e.cc, e.cs, F) >= -k.tol)
                \cup Chk("C15.lp_certificate",
                    /\ e.cc >= -3 /\ \A j \in 1..np : e.cs[j] >= -3 /\ e.cs[j] * k.pd <= k.pn * k.S + k.tol * k.pd
                    /\ Abs(Sum(e.cs) - k.C * e.cc - e.obj) <= k.tol))
     \cup Chk("C15.rule_generated", R \subseteq ClauseSets(all))
     \cup Chk("C15.rule_complexity", RuleCx(R) <= k.C)
     \cup Chk("C15.rule_not_better_than_lp", e.opt => c * k.S >= k.pd * (e.obj - k.tol))
     \cup Chk("C15.rule_not_worse_than_single_clauses",
              c <= RuleCost(k, {}) /\ \A i \in 1..Len(all) : Cx(all[i]) <= k.C => c <= RuleCost(k, {Range(all[i])}))

(* clause number n: the positions of the ones among the binary digits of n *)
GuardNumber(e) == Chk("C09.clause_number", e.f = SelectSeq([b \in 1..31 |-> b - 1], LAMBDA b : (IF b = 30 THEN e.n \div 1073741824 ELSE (e.n \div (2 ^ b)) % 2) = 1))

Guard(k, s, e) ==
  CASE e.op = "build" -> MasterIs(k, <<(<<>>)>>, e.m)
    [] e.op = "rebuild" -> MasterIs(k, s.cl, e.m)
    [] e.op = "add" -> GuardAdd(k, s, e) \cup
         MasterIs(k, IF e.f # <<>> /\ Range(e.f) \notin ClauseSets(s.cl) THEN Append(s.cl, e.f) ELSE s.cl, e.m)
    [] e.op = "solve" -> MasterIs(k, s.cl, e.m) \cup DualsOk(k, s.cl, e) \cup PrimalOk(k, s.cl, e)
    [] e.op = "ip" -> MasterIs(k, s.cl, e.m) \cup IpOk(k, s.cl, e)
    [] e.op = "number" -> GuardNumber(e)
    [] e.op = "price" -> GuardPrice(k, e)
    [] e.op = "heur" -> GuardHeur(k, e)
    [] e.op = "fprice" -> GuardFPrice(k, s, e)
    [] e.op = "fheur" -> GuardFHeur(k, s, e)
    [] e.op = "predict" -> GuardPredict(k, e)
    [] e.op = "fitted" -> GuardFitted(k, e)
    [] OTHER -> {"C09.error"}

After(k, s, e) ==
  CASE e.op = "build" -> [s EXCEPT !.built = TRUE, !.cl = <<(<<>>)>>]
    [] e.op = "add" -> [s EXCEPT !.cl = IF e.f # <<>> /\ Range(e.f) \notin ClauseSets(s.cl) THEN Append(@, e.f) ELSE @]
    [] e.op = "solve" -> [s EXCEPT !.cc = e.cc, !.cs = e.cs]
    [] OTHER -> s
==============================================================================
