------------------------------- MODULE PrepMC -------------------------------
(* The merging loop as an algorithm: rows are compared in pairs, a later row
   that behaves like an earlier one loses its row constraint and, with the
   same class, is merged.  It may stop after any pair (time limit); at any
   moment the preprocessing is sound and the whole loop leaves no pair.     *)
EXTENDS Prep, TLC, Json
CONSTANTS N, Vals, Ths, Depth, Cands
CandSets == {<<0>>, <<1>>, <<0, 1>>}
VARIABLES k, rows, a, b
vars == <<k, rows, a, b>>
Splits == SetToSeq({<<0, t>> : t \in Ths})
Insts == {[D |-> Depth, K |-> 2, X |-> X, y |-> y, sp |-> Splits, cand |-> c, w |-> [r \in 1..N |-> 1],
           rm |-> [r \in 1..N |-> FALSE], rs |-> [r \in 1..N |-> FALSE]] :
          X \in {x \in [1..N -> {<<v>> : v \in Vals}] : \A i \in 2..N : x[i - 1][1] <= x[i][1] \/ i = 3},
          y \in [1..N -> {0, 1}],
          c \in [1..(2 ^ Depth - 1) -> Cands]}
Init == /\ k \in Insts /\ a = 1 /\ b = 2
        /\ rows = [r \in 1..N |-> [rm |-> Cardinality(ReachLeaves(k, r)) <= 2, rs |-> FALSE, w |-> 1]]
Pair == IF rows[a].rs \/ rows[b].rs \/ ~Alike(k, a, b) THEN rows
        ELSE [rows EXCEPT ![b].rm = IF rows[a].rm THEN @ ELSE TRUE,
                          ![b].rs = k.y[a] = k.y[b],
                          ![a].w = IF k.y[a] = k.y[b] THEN @ + 1 ELSE @]
Next == /\ a < N /\ rows' = Pair /\ UNCHANGED k
        /\ IF b < N THEN a' = a /\ b' = b + 1 ELSE a' = a + 1 /\ b' = a + 2
Spec == Init /\ [][Next]_vars

Event == [op |-> "prep", agg |-> TRUE, haspaths |-> FALSE, ps |-> <<>>,
          rows |-> [r \in 1..N |-> [nodes |-> SetToSeq(ReachNodes(k, r)), leaves |-> SetToSeq(ReachLeaves(k, r)), paths |-> <<>>,
                                    lsp |-> SetToSeq(LeftSplits(k, r)), rsp |-> SetToSeq((0..(Len(k.sp) - 1)) \ LeftSplits(k, r)),
                                    rm |-> rows[r].rm, rs |-> rows[r].rs, w |-> rows[r].w]],
          links |-> [n \in 1..(2 ^ k.D - 1) |->
                      [parent |-> IF n = 1 THEN -1 ELSE (n - 2) \div 2,
                       left |-> IF 2 * n - 1 > 2 ^ k.D - 2 THEN 2 * n - 1 - (2 ^ k.D - 1) ELSE 2 * n - 1,
                       right |-> IF 2 * n - 1 > 2 ^ k.D - 2 THEN 2 * n - (2 ^ k.D - 1) ELSE 2 * n,
                       cal |-> 2 * n - 1 > 2 ^ k.D - 2]]]
Sound == GuardPrep(k, Event) = {}
Complete == a >= N => \A r, t \in 1..N : r # t /\ Alike(k, r, t) /\ k.y[r] = k.y[t] => rows[r].rs \/ rows[t].rs
(* reachability is what paths can do: a leaf is reachable exactly if some path of candidate splits is followed *)
ReachIsPaths == a = 1 /\ b = 2 =>
  \A r \in RowIds(k) : ReachLeaves(k, r) = {l \in Leaves(k.D) : \E c \in Choices(k, l, 1) : Follows(k, PathOf(k, l, c), k.X[r])}
AlikeSamePaths == a = 1 /\ b = 2 =>
  \A r, t \in RowIds(k) : Alike(k, r, t) <=>
     \A l \in Leaves(k.D) : \A c \in Choices(k, l, 1) : Follows(k, PathOf(k, l, c), k.X[r]) <=> Follows(k, PathOf(k, l, c), k.X[t])
(* a row that reaches two leaves only: its row constraint is implied by the leaf constraints *)
Implied == a = 1 /\ b = 2 =>
  \A r \in RowIds(k) : Cardinality(ReachLeaves(k, r)) <= 2 =>
    \A c \in [Nodes(k.D) -> 0..(Len(k.sp) - 1)] :
      (\A n \in Nodes(k.D) : c[n] \in Range(k.cand[n + 1])) =>
        Cardinality({l \in Leaves(k.D) : Follows(k, PathOf(k, l, [i \in 1..k.D |-> c[PathNodes(k.D, l)[i]]]), k.X[r])}) = 1
==============================================================================
