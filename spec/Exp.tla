-------------------------------- MODULE Exp --------------------------------
(* The instance that the experiment passes to the tree classifier (C27).
   k holds the instance itself; e.splits, e.nodes, e.leaves, e.paths describe
   the objects, e.rows the preprocessed rows, e.codes the labels of the file. *)
EXTENDS Prep

(* consistent tree of the given paths; candidates are what the paths use *)
UsedAt(k, ps) == [n \in 1..(2 ^ k.D - 1) |-> SetToSeq({sm[2] : sm \in {x \in UNION {SplitMap(ps[i]) : i \in 1..Len(ps)} : x[1] = n - 1}})]
HasTree(k, ps) ==
  \/ Len(ps) >= NumLeaves(k.D) /\ Consistent(k, SubSeq(ps, 1, NumLeaves(k.D)))
  \/ BestTree([k EXCEPT !.cand = UsedAt(k, ps)], ps) >= 0

Candidates(k) == UNION {Range(k.cand[n]) : n \in 1..Len(k.cand)}
Shape(k, p) == /\ p.leaf \in Leaves(k.D) /\ Len(p.nodes) = k.D /\ Len(p.splits) = k.D
               /\ p.nodes = PathNodes(k.D, p.leaf) /\ Range(p.splits) \subseteq 0..(Len(k.sp) - 1)

(* Which candidate the split at node j of path i is.  e.before: the candidate
   splits before they were reduced to the most frequent ones.  A split that is
   candidate of no node is removed from the instance; it must not be used. *)
SplitUse(k, e, i, j) ==
  LET p == e.paths[i]
      x == p.splits[j]
      n == p.nodes[j] + 1
      who == IF i <= NumLeaves(k.D) THEN "C27.first_tree" ELSE "C27.added_path"
  IN IF x \in Range(k.cand[n]) THEN {}
     ELSE IF i > NumLeaves(k.D) /\ x \notin Candidates(k) THEN {"C27.added_path_uses_removed_split"}
     ELSE IF n <= Len(e.before) /\ x \in Range(e.before[n]) THEN {who \o "_uses_trimmed_split"}
     ELSE {who \o "_uses_split_of_other_node"}

GuardInstance(k, e) ==
  LET ns == Len(k.sp)
      first == NumLeaves(k.D)
      ok == /\ Len(k.cand) = 2 ^ k.D - 1
            /\ \A n \in 1..Len(k.cand) : Range(k.cand[n]) \subseteq 0..(ns - 1)
      shape == ok /\ \A i \in 1..Len(e.paths) : Shape(k, e.paths[i])
      plain == [k EXCEPT !.w = [r \in RowIds(k) |-> 1], !.rs = [r \in RowIds(k) |-> FALSE]]
  IN
  Chk("C27.splits_numbered", e.splitids = [i \in 1..ns |-> i - 1])
  \cup Chk("C27.splits_distinct", Cardinality(Range(k.sp)) = ns)
  \cup Chk("C27.rows_of_splits", \A x \in 1..ns :
        /\ Range(e.left[x]) = {r - 1 : r \in {q \in RowIds(k) : GoesLeft(k, k.X[q], x - 1)}}
        /\ Range(e.right[x]) = {r - 1 : r \in {q \in RowIds(k) : ~GoesLeft(k, k.X[q], x - 1)}})
  \cup Chk("C27.nodes", ok /\ e.nodeids = [i \in 1..(2 ^ k.D - 1) |-> i - 1])
  \cup Chk("C27.candidates", \A n \in 1..Len(k.cand) : k.cand[n] # <<>> /\ Cardinality(Range(k.cand[n])) = Len(k.cand[n]))
  \cup Chk("C27.leaves", /\ Len(e.leaves) = first
        /\ \A l \in 1..Len(e.leaves) : /\ e.leaves[l].id = l - 1
              /\ Range(e.leaves[l].left) = LeftNodes(k.D, l - 1) /\ Range(e.leaves[l].right) = RightNodes(k.D, l - 1))
  \cup Chk("C27.paths", shape)
  \cup Chk("C27.targets", e.targets = [t \in 1..k.K |-> t - 1] /\ k.y = e.codes /\ e.data)
  \cup (IF ~shape THEN {} ELSE
     Chk("C27.path_cost", \A i \in 1..Len(e.paths) :
        LET fr == FollowRows(k, e.paths[i]) IN e.paths[i].cost = CostOf(plain, fr, e.paths[i].target))
     \cup Chk("C27.path_target", \A i \in 1..Len(e.paths) :
        LET fr == FollowRows(k, e.paths[i]) IN
        /\ e.paths[i].target \in 0..(k.K - 1)
        /\ \A t \in 0..(k.K - 1) : CostOf(plain, fr, t) <= CostOf(plain, fr, e.paths[i].target))
     \cup Chk("C27.consistent_tree", HasTree(k, e.paths))
     \cup UNION {UNION {SplitUse(k, e, i, j) : j \in 1..k.D} : i \in 1..Len(e.paths)})
  \cup (IF ok THEN {"C27." \o "rows" : x \in GuardPrep(k, e)} ELSE {})

XGuard(k, s, e) == IF e.op = "instance" THEN GuardInstance(k, e) ELSE {"C27.error"}
==============================================================================
