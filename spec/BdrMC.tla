------------------------------- MODULE BdrMC -------------------------------
(* Small rule learning problems, all of them: the pricing model (2a)-(2e) of
   the documentation prices clauses exactly, the master model costs every
   selection exactly, duals accepted by the specification bound every rule,
   and histories of the master keep the set of clauses.                    *)
EXTENDS Bdr, TLC, Json
CONSTANTS NF, N, MaxOps, Gen
VARIABLES k, s, hist
vars == <<k, s, hist>>

Rows == [1..NF -> {0, 1}]
Init == /\ k \in {[X |-> X, y |-> y, nf |-> NF, C |-> c, pn |-> p, pd |-> 2, S |-> 16, tol |-> 0, maxip |-> 99] :
                  X \in (IF Gen THEN {[i \in 1..N |-> [j \in 1..NF |-> IF i = j \/ i = N THEN 1 ELSE 0]],
                                      [i \in 1..N |-> [j \in 1..NF |-> (i + j) % 2]]} ELSE [1..N -> Rows]),
                  y \in (IF Gen THEN {[i \in 1..N |-> i % 2], [i \in 1..N |-> (i + 1) % 2]} ELSE [1..N -> {0, 1}]),
                  c \in {2, 4}, p \in {1, 4}}
        /\ s = [Start(k) EXCEPT !.built = TRUE, !.cl = <<(<<>>)>>] /\ hist = <<>>
Fs == {<<>>} \cup {<<i>> : i \in Feat(k)} \cup {<<0, 1>>}
Add == \E f \in Fs :
         \* without Gen only the set of clauses matters: add them in one order
         /\ Gen \/ \A i \in 2..Len(s.cl) : Len(s.cl[i]) < Len(f) \/ (Len(s.cl[i]) = Len(f) /\ s.cl[i][1] <= f[1])
         /\ s' = After(k, s, [op |-> "add", f |-> f]) /\ (IF Gen THEN hist' = Append(hist, <<"add", f>>) ELSE hist' = hist)
Solve == Gen /\ s' = s /\ hist' = Append(hist, <<"solve">>)
Ip == Gen /\ s' = s /\ hist' = Append(hist, <<"ip">>)
PrintScript == IF Gen /\ Len(hist') = MaxOps
               THEN PrintT("SCRIPT " \o ToJson([nf |-> k.nf, X |-> k.X, y |-> k.y, C |-> k.C, pn |-> k.pn, pd |-> k.pd, h |-> hist'])) ELSE TRUE
Next == Len(hist) < MaxOps /\ UNCHANGED k /\ (Add \/ Solve \/ Ip) /\ PrintScript
Spec == Init /\ [][Next]_vars

(* (2a)-(2e): the least objective over all delta for the features F in z *)
S0(i) == {j \in Feat(k) : k.X[i][j + 1] = 0}
DeltaOk(d, F) ==
  /\ \A i \in 1..N : k.y[i] = 1 => \A j \in S0(i) : d[i] + One(j \in F) <= 1
  /\ \A i \in Neg(k) : d[i] >= 1 - Cardinality(S0(i) \cap F)
Obj2(q, cc, cs, d, F) ==
  cc * (1 + Cardinality(F))
  + q * Cardinality({i \in Neg(k) : d[i] = 1})
  - Sum([j \in 1..Len(Pos(k)) |-> cs[j] * d[Pos(k)[j]]])
PricingModelExact ==
  Len(s.cl) = 1 /\ hist = <<>> => \A F \in SUBSET Feat(k) : \A cc \in {0, 3} : \A cs \in [1..Len(Pos(k)) -> {0, 5}] :
     SetMin({Obj2(4, cc, cs, d, F) : d \in {x \in [1..N -> {0, 1}] : DeltaOk(x, F)}}) = Reduced(k, 4, cc, cs, F)

(* a selection w of clauses with the least feasible xi costs RuleCost *)
MasterCostExact ==
  \A R \in Admissible(k, s.cl) :
    LET w == [i \in 1..Len(s.cl) |-> One(Range(s.cl[i]) \in R)]
        xi == [j \in 1..Len(Pos(k)) |->
                 LET c == Sum([i \in 1..Len(s.cl) |-> w[i] * Cover(k, s.cl[i])[j]]) IN IF c >= 1 THEN 0 ELSE 1]
    IN k.pd * Sum([i \in 1..Len(s.cl) |-> w[i] * NegCost(k, s.cl[i])]) + k.pn * Sum(xi) = RuleCost(k, R)

(* accepted duals are a certificate: no admissible rule is cheaper *)
Certificate ==
  \A cc \in {0, 4, 16} : \A cs \in [1..Len(Pos(k)) -> {0, 8, 32}] :
    LET obj == Sum(cs) - k.C * cc
        e == [cc |-> cc, cs |-> cs, obj |-> obj] IN
    DualsOk(k, s.cl, e) = {} => \A R \in Admissible(k, s.cl) : k.pd * obj <= k.S * RuleCost(k, R)
NoDuplicates == Cardinality(ClauseSets(s.cl)) = Len(s.cl) /\ {} \in ClauseSets(s.cl)
==============================================================================
