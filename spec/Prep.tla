-------------------------------- MODULE Prep --------------------------------
(* Preprocessing of the rows of a decision tree problem (C26).             *)
EXTENDS Tree

(* nodes a row can reach: the root, and the child on the row's side of some
   candidate split of a reachable node                                     *)
Sides(k, r, n) == {IF GoesLeft(k, k.X[r], x) THEN 2 * n + 1 ELSE 2 * n + 2 : x \in Range(k.cand[n + 1])}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(k, r, n) ==
  IF n > 2 ^ k.D - 2 THEN {n} ELSE {n} \cup UNION {ReachFrom(k, r, c) : c \in Sides(k, r, n)}
ReachAll(k, r) == ReachFrom(k, r, 0)
ReachNodes(k, r) == {n \in ReachAll(k, r) : n <= 2 ^ k.D - 2}
ReachLeaves(k, r) == {n - (2 ^ k.D - 1) : n \in {m \in ReachAll(k, r) : m > 2 ^ k.D - 2}}
ReachPaths(k, r, ps) == {i \in 1..Len(ps) : Follows(k, ps[i], k.X[r])}
LeftSplits(k, r) == {x \in 0..(Len(k.sp) - 1) : GoesLeft(k, k.X[r], x)}
(* two rows take the same branches at every node that one of them reaches *)
Alike(k, r, t) ==
  LET N == ReachNodes(k, r) IN
  /\ N = ReachNodes(k, t)
  /\ \A n \in N : \A x \in Range(k.cand[n + 1]) : GoesLeft(k, k.X[r], x) <=> GoesLeft(k, k.X[t], x)

(* a row may lose its row constraint, or be merged in the pricing *)
MayDrop(k, agg, rows, r) ==
  \/ Cardinality(ReachLeaves(k, r)) <= 2
  \/ agg /\ \E t \in RowIds(k) \ {r} : ~rows[t].rm /\ Alike(k, r, t)
MayMerge(k, agg, rows, r) ==
  agg /\ \E t \in RowIds(k) \ {r} : ~rows[t].rs /\ k.y[t] = k.y[r] /\ Alike(k, r, t)
WeightOf(rows, T) == SetSum([r \in 1..Len(rows) |-> IF rows[r].rs THEN 0 ELSE rows[r].w], T)

LinkOk(k, n, l) ==
  /\ l.parent = (IF n = 0 THEN -1 ELSE (n - 1) \div 2)
  /\ IF 2 * n + 1 > 2 ^ k.D - 2
     THEN l.cal /\ l.left = 2 * n + 1 - (2 ^ k.D - 1) /\ l.right = 2 * n + 2 - (2 ^ k.D - 1)
     ELSE ~l.cal /\ l.left = 2 * n + 1 /\ l.right = 2 * n + 2

PathsOk(k, ps, paths) ==
  \A r \in RowIds(k) : Range(paths[r]) = ReachPaths(k, r, ps)

GuardPrep(k, e) ==
  IF Len(e.rows) # Len(k.X) \/ Len(e.links) # Len(k.cand) THEN {"C26.shape"}
  ELSE
  Chk("C26.reachable_nodes", \A r \in RowIds(k) : Range(e.rows[r].nodes) = ReachNodes(k, r))
  \cup Chk("C26.reachable_leaves", \A r \in RowIds(k) : Range(e.rows[r].leaves) = ReachLeaves(k, r))
  \cup Chk("C26.branches", \A r \in RowIds(k) :
        /\ Range(e.rows[r].lsp) = LeftSplits(k, r)
        /\ Range(e.rows[r].rsp) = (0..(Len(k.sp) - 1)) \ LeftSplits(k, r))
  \cup Chk("C26.reachable_paths", e.haspaths => PathsOk(k, e.ps, [r \in RowIds(k) |-> e.rows[r].paths]))
  \cup Chk("C26.dropped_rows", \A r \in RowIds(k) : e.rows[r].rm => MayDrop(k, e.agg, e.rows, r))
  \cup Chk("C26.merged_rows", \A r \in RowIds(k) : e.rows[r].rs => MayMerge(k, e.agg, e.rows, r))
  \cup Chk("C26.merged_rows_have_no_row_constraint", \A r \in RowIds(k) : e.rows[r].rs => e.rows[r].rm)
  \cup Chk("C26.weights", \A r \in RowIds(k) :
        LET T == {t \in RowIds(k) : k.y[t] = k.y[r] /\ Alike(k, r, t)}
        IN WeightOf(e.rows, T) = Cardinality(T) /\ e.rows[r].w >= 1)
  \cup Chk("C26.weights_per_class", \A t \in 0..(k.K - 1) :
        LET T == {r \in RowIds(k) : k.y[r] = t} IN WeightOf(e.rows, T) = Cardinality(T))
  \cup Chk("C26.links", \A n \in Nodes(k.D) : LinkOk(k, n, e.links[n + 1]))
  \cup Chk("C26.path_costs", k.D <= 3 =>
        LET kk == [k EXCEPT !.w = [r \in RowIds(k) |-> e.rows[r].w], !.rs = [r \in RowIds(k) |-> e.rows[r].rs]]
            k1 == [k EXCEPT !.w = [r \in RowIds(k) |-> 1], !.rs = [r \in RowIds(k) |-> FALSE]]
        IN \A l \in Leaves(k.D) : \A c \in Choices(k, l, 1) :
             LET fr == FollowRows(k, PathOf(k, l, c)) IN
             \A t \in 0..(k.K - 1) : CostOf(kk, fr, t) = CostOf(k1, fr, t))

PGuard(k, s, e) ==
  CASE e.op = "prep" -> GuardPrep(k, e)
    [] e.op = "reach" -> Chk("C26.reachable_paths", PathsOk(k, e.ps, e.paths))
    [] OTHER -> {"C26.error"}
PAfter(k, s, e) == s
==============================================================================
