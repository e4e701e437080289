-------------------------------- MODULE Tree --------------------------------
(* Decision trees: geometry, routing, master problem, cutting planes, duals,
   pricing, selection, prediction (C16 - C25, C28).

   A complete tree of depth D has the nodes 0 .. 2^D - 2 (heap order) and the
   leaves 0 .. 2^D - 1 (left to right).  k describes an instance:
     D, K      depth and number of targets 0 .. K-1
     X, y      rows (integers after scaling) and their targets
     sp        splits <<feature, threshold>>, numbered from 0
     cand      candidate splits of every node
     w, rm, rs weight of a row, row without row constraint, row not priced
     beta, gen, rounds   cut configuration of the master
     S, tol    scale of observed real numbers and tolerance
   A path is a record leaf, nodes, splits, target, cost.                    *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x < y THEN y ELSE x
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
One(b) == IF b THEN 1 ELSE 0
Bag(q) == [x \in Range(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Inf == 536870912
RECURSIVE SetSum(_, _)
SetSum(f, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE z \in T : TRUE IN f[x] + SetSum(f, T \ {x})
RECURSIVE SetToSeq(_)
SetToSeq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE z \in T : TRUE IN <<x>> \o SetToSeq(T \ {x})

------------------------------------------------------------------------------
(* Geometry (C16) *)
NumLeaves(D) == 2 ^ D
Leaves(D) == 0..(2 ^ D - 1)
Nodes(D) == 0..(2 ^ D - 2)
AncAt(D, l, d) == 2 ^ d - 1 + l \div 2 ^ (D - d)        \* ancestor of leaf l on level d
LeftAt(D, l, d) == (l \div 2 ^ (D - d - 1)) % 2 = 0     \* its branch towards l
PathNodes(D, l) == [i \in 1..D |-> AncAt(D, l, D - i)]  \* from the leaf to the root
LeftNodes(D, l) == {AncAt(D, l, d) : d \in {e \in 0..(D - 1) : LeftAt(D, l, e)}}
RightNodes(D, l) == {AncAt(D, l, d) : d \in {e \in 0..(D - 1) : ~LeftAt(D, l, e)}}
NodeSet(D, l) == {AncAt(D, l, d) : d \in 0..(D - 1)}
Below(D, n) == {l \in Leaves(D) : n \in NodeSet(D, l)}

GuardSetLeaf(e) ==
  Chk("C16.path_nodes", e.nodes = PathNodes(e.D, e.leaf))
  \cup Chk("C16.path_leaf", e.id = e.leaf)
GuardCreateLeaf(e) ==
  Chk("C16.left_nodes", Range(e.left) = LeftNodes(e.D, e.leaf) /\ Cardinality(Range(e.left)) = Len(e.left))
  \cup Chk("C16.right_nodes", Range(e.right) = RightNodes(e.D, e.leaf) /\ Cardinality(Range(e.right)) = Len(e.right))
  \cup Chk("C16.leaf_id", e.id = e.leaf)

------------------------------------------------------------------------------
(* Routing (C17), identity (C18) *)
GoesLeft(k, row, s) == row[k.sp[s + 1][1] + 1] <= k.sp[s + 1][2]
Follows(k, p, row) ==
  \A i \in 1..Len(p.nodes) : (p.nodes[i] \in LeftNodes(k.D, p.leaf)) <=> GoesLeft(k, row, p.splits[i])
FollowsCut(k, p, c) ==
  \A i \in 1..Len(p.nodes) : (p.nodes[i] \in LeftNodes(k.D, p.leaf)) <=> c[p.splits[i] + 1]
SplitMap(p) == {<<p.nodes[i], p.splits[i]>> : i \in 1..Len(p.nodes)}
Same(p, q) == p.leaf = q.leaf /\ p.target = q.target /\ p.cost = q.cost /\ SplitMap(p) = SplitMap(q)

GuardRoute(k, e) ==
  Chk("C17.row_follows_path", e.ret = [i \in 1..Len(e.rows) |-> Follows(k, e.p, e.rows[i])])
  \cup Chk("C17.nothing_changed", e.same)
GuardTree(k, e) ==
  \* e.ret[i][j]: does row j follow path i of a consistent tree
  Chk("C17.exactly_one_path", \A j \in 1..Len(e.rows) : Cardinality({i \in 1..Len(e.ret) : e.ret[i][j]}) = 1)
GuardSets(k, e) ==
  \* e.cuts[c] is the assignment of cut c, numbered from 0
  Chk("C17.satisfied_rows", Range(e.sr) = {r \in 0..(Len(k.X) - 1) : Follows(k, e.p, k.X[r + 1])})
  \cup Chk("C17.satisfied_cuts", Range(e.sc) = {c \in 0..(Len(e.cuts) - 1) : FollowsCut(k, e.p, e.cuts[c + 1])})
  \cup Chk("C17.stored_sets_unchanged", e.same)
GuardSame(e) ==
  Chk("C18.same", e.ret = Same(e.p, e.q))
  \cup Chk("C18.symmetric", e.ret2 = e.ret)
  \cup Chk("C18.paths_unchanged", e.unch)

------------------------------------------------------------------------------
(* Paths of an instance *)
WellFormed(k, p) ==
  /\ p.leaf \in Leaves(k.D)
  /\ Len(p.nodes) = k.D /\ Len(p.splits) = k.D
  /\ Range(p.nodes) = NodeSet(k.D, p.leaf)
  /\ \A i \in 1..k.D : p.splits[i] \in Range(k.cand[p.nodes[i] + 1])
  /\ p.target \in 0..(k.K - 1)
RowIds(k) == 1..Len(k.X)
FollowRows(k, p) == {r \in RowIds(k) : Follows(k, p, k.X[r])}
(* weighted number of priced rows among rs with target t *)
CostOf(k, rs, t) == SetSum(k.w, {r \in rs : k.y[r] = t /\ ~k.rs[r]})
(* all choices of candidate splits for the nodes of a leaf, leaf to root *)
RECURSIVE Choices(_, _, _)
Choices(k, l, i) ==
  IF i > k.D THEN {<<>>}
  ELSE {<<s>> \o c : s \in Range(k.cand[AncAt(k.D, l, k.D - i) + 1]), c \in Choices(k, l, i + 1)}
PathOf(k, l, c) == [leaf |-> l, nodes |-> PathNodes(k.D, l), splits |-> c]

(* reduced cost without the cost term; alpha, beta by leaf and row, gamma[l][n]
   a function of the split (sequences indexed from 1)                        *)
DualPart(k, p, rs, d, cuts) ==
  d.alpha[p.leaf + 1]
  + SetSum(d.beta, {r \in rs : ~k.rs[r]})
  + Sum([i \in 1..Len(p.nodes) |-> d.gamma[p.leaf + 1][p.nodes[i] + 1][p.splits[i] + 1]])
  + Sum([c \in 1..Len(cuts) |-> IF FollowsCut(k, p, cuts[c]) THEN d.cut[c] ELSE 0])
DualShape(k, d, ncuts) ==
  /\ Len(d.alpha) = NumLeaves(k.D) /\ Len(d.beta) = Len(k.X) /\ Len(d.cut) = ncuts
  /\ Len(d.gamma) = NumLeaves(k.D)
  /\ \A l \in Leaves(k.D) : Len(d.gamma[l + 1]) = 2 ^ k.D - 1
       /\ \A n \in NodeSet(k.D, l) : Len(d.gamma[l + 1][n + 1]) = Len(k.sp)

------------------------------------------------------------------------------
(* The master problem (C19).  s.paths holds the paths in the order in which
   they entered, with fr, the rows that follow them; s.rows the rows with a
   row constraint; s.cuts the assignments of the cuts.                       *)
Start(k) ==
  [paths |-> <<>>, gone |-> {}, rows |-> {}, cuts |-> <<>>, ids |-> <<>>, built |-> FALSE,
   iter |-> 0, round |-> 0, obj |-> 0, solves |-> 0, x |-> <<>>, lpopt |-> FALSE, pend |-> <<>>, total |-> 0, d |-> [alpha |-> <<>>, beta |-> <<>>, gamma |-> <<>>, cut |-> <<>>]]

Entry(k, p) == [leaf |-> p.leaf, nodes |-> p.nodes, splits |-> p.splits, target |-> p.target, cost |-> p.cost,
                fr |-> FollowRows(k, p)]
Kept(k) == {r \in RowIds(k) : ~k.rm[r]}
P(s) == 1..Len(s.paths)

PlainRows(k, s) ==
  LET leafRow(l) == <<1, 1, {i \in P(s) : s.paths[i].leaf = l}>>
      rowRow(r) == <<-Inf, 1, {i \in P(s) : r \in s.paths[i].fr}>>
      cutRow(c) == <<1, 1, {i \in P(s) : FollowsCut(k, s.paths[i], c)}>>
      rq == SetToSeq(s.rows)
  IN [i \in 1..NumLeaves(k.D) |-> leafRow(i - 1)]
     \o [i \in 1..Len(rq) |-> rowRow(rq[i])]
     \o [i \in 1..Len(s.cuts) |-> cutRow(s.cuts[i])]
     \o [i \in 1..Len(s.pend) |-> <<1, 1, s.pend[i]>>]
NodeSplits(k) == {<<n, x>> \in Nodes(k.D) \X (0..(Len(k.sp) - 1)) : x \in Range(k.cand[n + 1])}
LinkRows(k, s, n, x) ==
  LET ls == SetToSeq(Below(k.D, n)) IN
  Bag([i \in 1..Len(ls) |-> {j \in P(s) : s.paths[j].leaf = ls[i] /\ <<n, x>> \in SplitMap(s.paths[j])}])

MasterIs(k, s, m) ==
  LET np == Len(s.paths)
      plain == SelectSeq(m.rows, LAMBDA r : r.aux = <<>>)
      linked == SelectSeq(m.rows, LAMBDA r : r.aux # <<>>)
      ns == SetToSeq(NodeSplits(k))
  IN
  Chk("C19.paths",
      /\ Len(m.paths) = np
      /\ \A i \in 1..Len(m.paths) : i <= np => Same(m.paths[i], s.paths[i]) /\ Len(m.paths[i].nodes) = Len(m.paths[i].splits))
  \cup Chk("C19.identifiers", Len(m.ids) = np /\ Cardinality(Range(m.ids)) = Len(m.ids)
                              /\ \A i \in 1..Len(m.ids) : i <= Len(s.ids) => m.ids[i] = s.ids[i])
  \cup Chk("C19.objective", /\ m.max /\ m.off = 0 /\ Len(m.cols) = np
                            /\ \A i \in 1..Len(m.cols) : i <= np => m.cols[i].obj = s.paths[i].cost * k.S
                            /\ \A i \in 1..Len(m.aux) : m.aux[i].obj = 0)
  \cup Chk("C19.variables", /\ \A i \in 1..Len(m.cols) : m.cols[i].lb = 0 /\ m.cols[i].int
                                 /\ (IF i \in s.gone THEN m.cols[i].ub = 0 ELSE m.cols[i].ub >= 1)
                            /\ \A i \in 1..Len(m.aux) : m.aux[i].lb = 0 /\ m.aux[i].ub >= 1)
  \cup Chk("C19.coefficients", \A i \in 1..Len(m.rows) : m.rows[i].unit)
  \cup Chk("C19.leaf_row_and_cut_constraints",
      Bag([i \in 1..Len(plain) |-> <<plain[i].lb, plain[i].ub, Range(plain[i].ps)>>]) = Bag(PlainRows(k, s)))
  \cup Chk("C19.consistency_variables", Len(m.aux) = Len(ns))
  \cup Chk("C19.consistency_constraints",
      /\ \A i \in 1..Len(linked) : linked[i].lb = 0 /\ linked[i].ub = 0 /\ Len(linked[i].aux) = 1 /\ linked[i].aux[1][2] = -1
      /\ Bag([a \in 1..Len(m.aux) |->
               LET rs == SelectSeq(linked, LAMBDA r : r.aux[1][1] = a)
               IN Bag([i \in 1..Len(rs) |-> Range(rs[i].ps)])])
         = Bag([i \in 1..Len(ns) |-> LinkRows(k, s, ns[i][1], ns[i][2])]))

------------------------------------------------------------------------------
(* Solving the master: every LP solve inside of one call is an lp event with
   the constraints that were added since the previous one.  x is the LP
   solution, in units of 10^-8.                                              *)
XS == 100000000
Weight(x, ps) == SetSum(x, {i \in ps : i <= Len(x)})
ScaledOne(x, ps) == Weight(x, ps) - XS

Assignments(k) ==
  {a \in [1..Len(k.sp) -> BOOLEAN] :
     \A i, j \in 1..Len(k.sp) :
       k.sp[i][1] = k.sp[j][1] /\ k.sp[i][2] <= k.sp[j][2] /\ a[i] => a[j]}
Violating(k, s) ==
  \E a \in Assignments(k) : ScaledOne(s.x, {i \in P(s) : FollowsCut(k, s.paths[i], a)}) > 100000

NewRows(e) == SelectSeq(e.rows, LAMBDA r : r.lb < 0)
NewCuts(e) == SelectSeq(e.rows, LAMBDA r : r.lb >= 0)

GuardLp(k, s, e) ==
  LET nr == NewRows(e)
      nc == NewCuts(e)
      first == s.round = 0
  IN
  Chk("C20.rounds_every_tenth_solve",
      e.rows # <<>> => ~first /\ (s.iter + 1) % 10 = 0 /\ s.round <= k.rounds)
  \cup Chk("C20.kind_of_cut",
      \A i \in 1..Len(e.rows) :
        /\ e.rows[i].unit /\ e.rows[i].ub = 1 /\ e.rows[i].lb \in {1, -Inf} /\ e.rows[i].aux = <<>>)
  \cup Chk("C20.configured", (nr # <<>> => k.beta) /\ (nc # <<>> => k.gen))
  \cup Chk("C20.rows_or_cuts", nr = <<>> \/ nc = <<>>)
  \cup Chk("C20.at_most_ten_rows_per_round", Len(nr) <= 10)
  \cup Chk("C20.kept_rows_once",
      /\ Len(nr) = Len(e.added)
      /\ \A i \in 1..Len(e.added) : e.added[i] \in Kept(k) \ s.rows
      /\ Cardinality(Range(e.added)) = Len(e.added))
  \cup Chk("C20.row_constraint_of_the_row",
      Bag([i \in 1..Len(nr) |-> Range(nr[i].ps)])
      = Bag([i \in 1..Len(e.added) |-> {j \in P(s) : e.added[i] \in s.paths[j].fr}]))
  \cup Chk("C20.only_violated_rows", \A i \in 1..Len(nr) : Abs(ScaledOne(s.x, Range(nr[i].ps))) >= 60)
  \cup Chk("C20.only_violated_cuts", \A i \in 1..Len(nc) : ScaledOne(s.x, Range(nc[i].ps)) >= 60)

(* the last round of a call has found nothing although it could *)
EmptyRound(k, s) == (s.iter + 1) % 10 = 0 /\ s.lpopt /\ s.round <= k.rounds
MissedCut(k, s) == EmptyRound(k, s) /\ k.gen /\ Len(k.sp) <= 9 /\ Violating(k, s)
MissedRow(k, s) ==
  /\ EmptyRound(k, s) /\ k.beta
  /\ \E r \in Kept(k) \ s.rows : ScaledOne(s.x, {i \in P(s) : r \in s.paths[i].fr}) > 100000

DualsOk(k, s, e, cuts) ==
  IF ~DualShape(k, e.d, Len(cuts)) THEN {"C21.shape"}
  ELSE
  Chk("C21.row_duals", \A r \in RowIds(k) : e.d.beta[r] >= -3 /\ (r \notin s.rows => e.d.beta[r] = 0))
  \cup Chk("C21.no_path_prices_out",
      \A i \in P(s) \ s.gone : s.paths[i].cost * k.S
        - DualPart([k EXCEPT !.rs = [r \in RowIds(k) |-> FALSE]], s.paths[i], s.paths[i].fr, e.d, cuts) <= k.tol)
  \cup Chk("C21.no_split_variable_prices_out",
      \A ns \in NodeSplits(k) :
        SetSum([l \in Leaves(k.D) |-> e.d.gamma[l + 1][ns[1] + 1][ns[2] + 1]], Below(k.D, ns[1])) <= k.tol)
  \cup Chk("C21.dual_objective", Abs(Sum(e.d.alpha) + Sum(e.d.beta) + Sum(e.d.cut) - e.obj) <= k.tol)
  \cup Chk("C21.lp_objective",
      Len(s.x) = Len(s.paths) =>
        \* every x is rounded to 1/S: an error of at most cost/S for each path used
        Abs(Sum([i \in P(s) |-> s.paths[i].cost * (s.x[i] \div (XS \div k.S))]) - e.obj)
          <= k.tol * 2 + Sum([i \in P(s) |-> IF s.x[i] = 0 THEN 0 ELSE s.paths[i].cost]))

GuardSolved(k, s, e) ==
  LET cuts == s.cuts \o e.ann IN
  Chk("C20.announced_once",
      /\ Len(e.ann) = Len(s.pend)
      /\ \A i \in 1..Len(e.ann) : Len(e.ann[i]) = Len(k.sp))
  \cup Chk("C20.cut_contains_the_paths_of_its_assignment",
      \A i \in 1..Len(e.ann) : i <= Len(s.pend) /\ Len(e.ann[i]) = Len(k.sp) =>
         s.pend[i] = {j \in P(s) : FollowsCut(k, s.paths[j], e.ann[i])})
  \cup Chk("C20.counted", e.total = s.total)
  \cup Chk("C20.finds_a_violated_cut", ~MissedCut(k, s))
  \cup Chk("C20.finds_a_violated_row", ~MissedRow(k, s))
  \cup (IF Len(e.ann) = Len(s.pend) /\ \A i \in 1..Len(e.ann) : Len(e.ann[i]) = Len(k.sp)
        THEN DualsOk(k, s, e, cuts) \cup (IF e.hasm THEN MasterIs(k, [s EXCEPT !.cuts = cuts, !.pend = <<>>], e.m) ELSE {})
        ELSE {})
  \cup Chk("C21.improvement", e.cmp = 2 \/ (e.imp <=> e.cmp = 1))

------------------------------------------------------------------------------
(* Selection of paths (C24) *)
Consistent(k, ps) ==
  \* exactly one path per leaf, shared nodes use the same split
  /\ \A l \in Leaves(k.D) : Cardinality({i \in 1..Len(ps) : ps[i].leaf = l}) = 1
  /\ Len(ps) = NumLeaves(k.D)
  /\ \A i, j \in 1..Len(ps) : \A a \in SplitMap(ps[i]), b \in SplitMap(ps[j]) : a[1] = b[1] => a[2] = b[2]
Minus == -100000
SetMax(T) == CHOOSE x \in T : \A z \in T : x >= z
(* best total cost below node n (or leaf), the nodes above being decided *)
RECURSIVE Best(_, _, _, _)
Best(k, ps, n, above) ==
  IF n > 2 ^ k.D - 2
  THEN LET l == n - (2 ^ k.D - 1) IN
       SetMax({Minus} \cup {ps[i].cost : i \in {j \in 1..Len(ps) : ps[j].leaf = l /\ SplitMap(ps[j]) = above[l + 1]}})
  ELSE SetMax({Minus} \cup
       {LET ab == [l \in 1..NumLeaves(k.D) |-> IF l - 1 \in Below(k.D, n) THEN above[l] \cup {<<n, x>>} ELSE above[l]] IN
        Best(k, ps, 2 * n + 1, ab) + Best(k, ps, 2 * n + 2, ab)
        : x \in {z \in Range(k.cand[n + 1]) : \E i \in 1..Len(ps) : <<n, z>> \in SplitMap(ps[i])}})
BestTree(k, ps) == Best(k, ps, 0, [l \in 1..NumLeaves(k.D) |-> {}])
TotalCost(ps) == Sum([i \in 1..Len(ps) |-> ps[i].cost])

Live(s) == LET q == SetToSeq(P(s) \ s.gone) IN [i \in 1..Len(q) |-> s.paths[q[i]]]
GuardIp(k, s, e) ==
  Chk("C24.generated_paths", \A i \in 1..Len(e.sel) : \E j \in P(s) \ s.gone : Same(e.sel[i], s.paths[j]))
  \cup Chk("C24.consistent_tree", Consistent(k, e.sel))
  \cup Chk("C24.best_tree", Consistent(k, e.sel) => TotalCost(e.sel) = BestTree(k, Live(s)))
  \cup (IF e.hasm THEN MasterIs(k, s, e.m) ELSE {})

------------------------------------------------------------------------------
(* Pricing (C22, C23).  e.d the duals in units of 1/e.q, e.cuts the cuts
   announced so far (including this call), e.kind the subproblem.            *)
PathOk(k, e, p) == WellFormed(k, p) /\ (e.kind # "heur" => p.leaf = e.leaf) /\ (e.kind = "old" => p.target = e.target)
Value(k, e, p, t) == LET fr == FollowRows(k, p) IN e.q * CostOf(k, fr, t) - DualPart(k, p, fr, e.d, e.cuts)
Targets(k, e) == IF e.kind = "old" THEN {e.target} ELSE 0..(k.K - 1)
(* over all targets at once: the cost is the only part that depends on it *)
BestValue(k, e) ==
  SetMax({LET p == PathOf(k, e.leaf, c)
              fr == FollowRows(k, p)
          IN e.q * SetMax({CostOf(k, fr, t) : t \in Targets(k, e)}) - DualPart(k, p, fr, e.d, e.cuts)
          : c \in Choices(k, e.leaf, 1)})

GuardPrice(k, s, e) ==
  LET ok == \A i \in 1..Len(e.cols) : PathOk(k, e, e.cols[i]) IN
  Chk("C22.real_path", ok)
  \cup (IF ~ok THEN {} ELSE
     Chk("C22.exact_cost", \A i \in 1..Len(e.cols) :
           e.cols[i].cost = CostOf(k, FollowRows(k, e.cols[i]), e.cols[i].target))
     \cup Chk("C22.positive_reduced_cost", \A i \in 1..Len(e.cols) :
           Value(k, e, e.cols[i], e.cols[i].target) > 0)
     \cup (IF e.kind # "heur" THEN {} ELSE
        Chk("C22.heuristic_paths_differ",
            \A i, j \in 1..Len(e.cols) : i < j => ~Same(e.cols[i], e.cols[j]))
        \cup Chk("C22.heuristic_best_target",
            \A i \in 1..Len(e.cols) : \A t \in 0..(k.K - 1) :
              CostOf(k, FollowRows(k, e.cols[i]), t) <= CostOf(k, FollowRows(k, e.cols[i]), e.cols[i].target)))
     \cup (IF e.kind = "heur" \/ ~e.solved THEN {} ELSE
        LET best == BestValue(k, e) IN
        Chk("C23.nothing_when_nothing_improves", best <= 0 => e.cols = <<>>)
        \cup Chk("C23.finds_a_best_path",
             best > 0 => \E i \in 1..Len(e.cols) : Value(k, e, e.cols[i], e.cols[i].target) = best)))

(* The same inside of a training run: the duals are those of the last master
   solve, in units of 1/k.S and rounded.                                     *)
GuardFPrice(k, s, e) ==
  IF ~DualShape(k, s.d, Len(s.cuts)) THEN {}      \* C21.shape
  ELSE
  LET c == [kind |-> e.kind, leaf |-> e.leaf, target |-> e.target, q |-> k.S, d |-> s.d, cuts |-> s.cuts, cols |-> e.cols]
      ok == \A i \in 1..Len(e.cols) : PathOk(k, c, e.cols[i])
      V(i) == Value(k, c, e.cols[i], e.cols[i].target)
  IN
  Chk("C22.real_path", ok)
  \cup (IF ~ok THEN {} ELSE
     Chk("C22.exact_cost", \A i \in 1..Len(e.cols) :
           e.cols[i].cost = CostOf(k, FollowRows(k, e.cols[i]), e.cols[i].target))
     \cup Chk("C22.positive_reduced_cost", \A i \in 1..Len(e.cols) : V(i) > -k.tol)
     \cup (IF e.kind # "heur" THEN {} ELSE
        Chk("C22.heuristic_paths_differ",
            \A i, j \in 1..Len(e.cols) : i < j => ~Same(e.cols[i], e.cols[j]))
        \cup Chk("C22.heuristic_best_target",
            \A i \in 1..Len(e.cols) : \A t \in 0..(k.K - 1) :
              CostOf(k, FollowRows(k, e.cols[i]), t) <= CostOf(k, FollowRows(k, e.cols[i]), e.cols[i].target)))
     \cup (IF e.kind = "heur" \/ ~e.solved THEN {} ELSE
        LET best == BestValue(k, c) IN
        Chk("C23.nothing_when_nothing_improves", best <= -k.tol => e.cols = <<>>)
        \cup Chk("C23.finds_a_best_path", best > k.tol => \E i \in 1..Len(e.cols) : V(i) >= best - k.tol)))

------------------------------------------------------------------------------
(* Prediction (C25) *)
GuardPredict(k, s, e) ==
  LET code(row) == LET I == {i \in 1..Len(e.sel) : Follows(k, e.sel[i], row)} IN
                   IF I = {} THEN -1 ELSE e.sel[CHOOSE i \in I : TRUE].target
  IN Chk("C25.prediction", Len(e.out) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : i <= Len(e.out) => e.out[i] = code(e.rows[i]))
GuardAccuracy(k, s, e) ==
  Chk("C25.objective_is_training_accuracy",
      Cardinality({r \in RowIds(k) : e.out[r] = k.y[r]}) = TotalCost(e.sel))

------------------------------------------------------------------------------
(* A complete training run (C28, C24) *)
(* training accuracy of the best tree over the candidate splits *)
RECURSIVE BestAcc(_, _, _)
BestAcc(k, n, rs) ==
  IF n > 2 ^ k.D - 2 THEN SetMax({0} \cup {Cardinality({r \in rs : k.y[r] = t}) : t \in 0..(k.K - 1)})
  ELSE SetMax({BestAcc(k, 2 * n + 1, {r \in rs : GoesLeft(k, k.X[r], x)})
               + BestAcc(k, 2 * n + 2, {r \in rs : ~GoesLeft(k, k.X[r], x)}) : x \in Range(k.cand[n + 1])})
SamePath(p, q) == p.leaf = q.leaf /\ p.target = q.target /\ SplitMap(p) = SplitMap(q)

GuardFitted(k, s, e) ==
  LET gen == e.gen
      all == e.init \o gen
      wf == \A i \in 1..Len(gen) : WellFormed(k, gen[i])
  IN
  Chk("C28.ends_optimal_without_limits", e.nolimit => e.rep)
  \cup Chk("C28.no_path_twice", \A i, j \in 1..Len(gen) : i < j => ~SamePath(gen[i], gen[j]))
  \cup Chk("C22.real_path", wf)
  \cup Chk("C22.exact_cost", wf => \A i \in 1..Len(gen) : gen[i].cost = CostOf(k, FollowRows(k, gen[i]), gen[i].target))
  \cup (IF ~e.opt THEN {}
        ELSE IF ~DualShape(k, e.d, Len(e.cuts)) THEN {"C28.duals"}
        ELSE Chk("C28.no_path_improves",
               \A l \in Leaves(k.D) : \A c \in Choices(k, l, 1) :
                 LET p == PathOf(k, l, c)
                     fr == FollowRows(k, p)
                 IN k.S * SetMax({CostOf(k, fr, t) : t \in 0..(k.K - 1)}) - DualPart(k, p, fr, e.d, e.cuts) <= k.tol)
             \cup Chk("C28.lp_value", Abs(Sum(e.d.alpha) + Sum(e.d.beta) + Sum(e.d.cut) - e.obj) <= k.tol)
             \cup Chk("C28.bounds_every_tree", e.acc => k.S * BestAcc(k, 0, RowIds(k)) <= e.obj + k.tol))
  \cup Chk("C24.consistent_tree", Consistent(k, e.sel))
  \cup Chk("C24.generated_paths", \A i \in 1..Len(e.sel) : \E j \in 1..Len(all) : Same(e.sel[i], all[j]))
  \cup Chk("C24.best_tree", Consistent(k, e.sel) => TotalCost(e.sel) = BestTree(k, all))

------------------------------------------------------------------------------
(* the generated paths are taken out: all but the initial ones, e.keep *)
Removed(s, e) == [s EXCEPT !.gone = @ \cup (P(s) \ Range(e.keep))]

Guard(k, s, e) ==
  CASE e.op = "setleaf" -> GuardSetLeaf(e)
    [] e.op = "createleaf" -> GuardCreateLeaf(e)
    [] e.op = "route" -> GuardRoute(k, e)
    [] e.op = "tree" -> GuardTree(k, e)
    [] e.op = "sets" -> GuardSets(k, e)
    [] e.op = "same" -> GuardSame(e)
    [] e.op = "build" -> MasterIs(k, [s EXCEPT !.paths = [i \in 1..Len(e.init) |-> Entry(k, e.init[i])],
                                               !.rows = IF k.beta THEN {} ELSE Kept(k)], e.m)
    [] e.op = "rebuild" -> MasterIs(k, s, e.m)
    [] e.op = "add" -> Chk("C19.accepted", e.ret)
                       \cup (IF e.hasm THEN MasterIs(k, [s EXCEPT !.paths = Append(@, Entry(k, e.p))], e.m) ELSE {})
    [] e.op = "remove" -> MasterIs(k, Removed(s, e), e.m) \cup Chk("C19.removal_restarts_the_clock", e.timer)
    [] e.op = "lp" -> GuardLp(k, s, e)
    [] e.op = "solved" -> GuardSolved(k, s, e)
    [] e.op = "unsolved" -> {"C21.solved"} \cup MasterIs(k, s, e.m)
                            \cup Chk("C20.every_tree_satisfies_the_cuts", s.cuts = <<>> /\ s.pend = <<>>)
    [] e.op = "ip" -> GuardIp(k, s, e)
    [] e.op = "price" -> GuardPrice(k, s, e)
    [] e.op = "fprice" -> GuardFPrice(k, s, e)
    [] e.op = "predict" -> GuardPredict(k, s, e)
    [] e.op = "accuracy" -> GuardAccuracy(k, s, e)
    [] e.op = "fitted" -> GuardFitted(k, s, e)
    [] OTHER -> {"C19.error"}

After(k, s, e) ==
  CASE e.op = "build" ->
         [s EXCEPT !.built = TRUE, !.paths = [i \in 1..Len(e.init) |-> Entry(k, e.init[i])], !.ids = e.m.ids,
                   !.rows = IF k.beta THEN {} ELSE Kept(k)]
    [] e.op = "add" -> [s EXCEPT !.paths = Append(@, Entry(k, e.p)), !.ids = Append(@, e.id), !.x = Append(@, 0)]
    [] e.op = "remove" -> Removed(s, e)
    [] e.op = "lp" ->
         [s EXCEPT !.round = @ + 1, !.x = e.x, !.lpopt = e.opt,
                   !.rows = @ \cup Range(e.added),
                   !.total = @ + Len(e.rows),
                   !.pend = @ \o [i \in 1..Len(NewCuts(e)) |-> Range(NewCuts(e)[i].ps)]]
    [] e.op = "solved" ->
         [s EXCEPT !.iter = @ + 1, !.round = 0, !.obj = e.obj, !.d = e.d,
                   !.cuts = @ \o [i \in 1..Len(e.ann) |-> [j \in 1..Len(k.sp) |-> j <= Len(e.ann[i]) /\ e.ann[i][j]]],
                   !.pend = <<>>]
    [] OTHER -> s
==============================================================================
