------------------------------- MODULE TreeMC -------------------------------
(* Small tree problems, all of them: the geometry of the documentation, the
   master problem and its cuts hold exactly for consistent trees, accepted
   duals bound every tree, the pricing models (1)-(11) are exact, and
   histories of the master (Gen) to be replayed into the code.             *)
EXTENDS Tree, TLC, Json
CONSTANTS MaxD, Depth, N, Vals, Ths, MaxOps, Gen
VARIABLES k, s, hist
vars == <<k, s, hist>>

(* the tree of the documentation: children of i are 2i+1 and 2i+2 *)
RECURSIVE Down(_, _, _)
Down(D, n, acc) ==       \* <<leaf, nodes on the way, those left by their left branch>>
  IF n >= 2 ^ D - 1 THEN {<<n - (2 ^ D - 1), acc[1], acc[2]>>}
  ELSE Down(D, 2 * n + 1, <<acc[1] \cup {n}, acc[2] \cup {n}>>) \cup Down(D, 2 * n + 2, <<acc[1] \cup {n}, acc[2]>>)
ASSUME \A D \in 1..MaxD :
  LET all == Down(D, 0, <<{}, {}>>) IN
  /\ Cardinality(all) = NumLeaves(D) /\ {t[1] : t \in all} = Leaves(D)
  /\ \A t \in all : /\ Range(PathNodes(D, t[1])) = t[2] /\ NodeSet(D, t[1]) = t[2]
                    /\ LeftNodes(D, t[1]) = t[3] /\ RightNodes(D, t[1]) = t[2] \ t[3]
                    /\ Len(PathNodes(D, t[1])) = D
                    /\ PathNodes(D, t[1])[D] = 0
                    /\ \A i \in 1..(D - 1) : PathNodes(D, t[1])[i + 1] = (PathNodes(D, t[1])[i] - 1) \div 2
  /\ \A n \in Nodes(D) : Below(D, n) = {t[1] : t \in {u \in all : n \in u[2]}}

Splits == SetToSeq({<<0, t>> : t \in Ths})
NS == 0..(Len(Splits) - 1)
Insts ==
  {[D |-> Depth, K |-> 2, X |-> X, y |-> y, sp |-> Splits, cand |-> c,
    w |-> w, rm |-> [r \in 1..N |-> FALSE], rs |-> [r \in 1..N |-> FALSE],
    beta |-> FALSE, gen |-> TRUE, rounds |-> 1, S |-> 1, tol |-> 0] :
     X \in (IF Gen THEN {[i \in 1..N |-> <<i - 1>>]} ELSE [1..N -> {<<v>> : v \in Vals}]),
     y \in (IF Gen THEN {[i \in 1..N |-> i % 2]} ELSE [1..N -> {0, 1}]),
     w \in (IF Gen THEN {[i \in 1..N |-> 1]} ELSE {[i \in 1..N |-> 1], [i \in 1..N |-> i]}),
     c \in {[n \in 1..(2 ^ Depth - 1) |-> [i \in 1..Len(Splits) |-> i - 1]]}}
AllPaths == {[leaf |-> l, nodes |-> PathNodes(k.D, l), splits |-> c, target |-> t,
              cost |-> CostOf(k, FollowRows(k, PathOf(k, l, c)), t)] :
                <<l, c, t>> \in {<<ll, cc, tt>> \in Leaves(k.D) \X [1..k.D -> NS] \X {0, 1} : cc \in Choices(k, ll, 1)}}
Trees == [Nodes(k.D) -> NS]
PathIn(a, l) == LET c == [i \in 1..k.D |-> a[PathNodes(k.D, l)[i]]]
                    fr == FollowRows(k, PathOf(k, l, c))
                    t == IF CostOf(k, fr, 0) >= CostOf(k, fr, 1) THEN 0 ELSE 1
                IN [leaf |-> l, nodes |-> PathNodes(k.D, l), splits |-> c, target |-> t, cost |-> CostOf(k, fr, t)]
TreePaths(a) == [i \in 1..NumLeaves(k.D) |-> PathIn(a, i - 1)]
InitTree == TreePaths([n \in Nodes(k.D) |-> 0])

Init == /\ k \in Insts /\ hist = <<>>
        /\ s = [Start(k) EXCEPT !.built = TRUE, !.rows = Kept(k),
                                !.paths = [i \in 1..NumLeaves(k.D) |-> Entry(k, InitTree[i])]]
Add == \E p \in AllPaths :
         /\ \A i \in P(s) : ~Same(p, s.paths[i])
         /\ ~Gen => \A i \in P(s) : i > NumLeaves(k.D) =>
              \* without Gen only the set of paths matters
              s.paths[i].leaf < p.leaf \/ (s.paths[i].leaf = p.leaf /\ s.paths[i].target <= p.target)
         /\ Gen => p.target = (p.leaf + p.splits[1]) % 2
         /\ s' = [s EXCEPT !.paths = Append(@, Entry(k, p))]
         /\ (IF Gen THEN hist' = Append(hist, [op |-> "add", p |-> p]) ELSE hist' = Append(hist, 0))
Other == Gen /\ s' = s /\ \E o \in {"solve", "ip", "rebuild"} : hist' = Append(hist, [op |-> o])
PrintScript == IF Gen /\ Len(hist') = MaxOps
               THEN PrintT("SCRIPT " \o ToJson([k |-> [D |-> k.D, K |-> k.K, X |-> k.X, y |-> k.y, sp |-> k.sp, cand |-> k.cand],
                                                init |-> InitTree, h |-> hist'])) ELSE TRUE
Next == Len(hist) < MaxOps /\ UNCHANGED k /\ (Add \/ Other) /\ PrintScript
Spec == Init /\ [][Next]_vars

(* every row, and every assignment of branches, is in exactly one path *)
Partition ==
  hist = <<>> => \A a \in Trees :
    /\ \A v \in Vals : Cardinality({l \in Leaves(k.D) : Follows(k, PathIn(a, l), <<v>>)}) = 1
    /\ \A c \in [1..Len(k.sp) -> BOOLEAN] : Cardinality({l \in Leaves(k.D) : FollowsCut(k, PathIn(a, l), c)}) = 1
    /\ \A r \in RowIds(k) : \A l \in Leaves(k.D) :
         Follows(k, PathIn(a, l), k.X[r]) <=> FollowsCut(k, PathIn(a, l), [i \in 1..Len(k.sp) |-> GoesLeft(k, k.X[r], i - 1)])
    /\ [i \in 1..Len(k.sp) |-> GoesLeft(k, k.X[1], i - 1)] \in Assignments(k)

(* 0/1 solutions of leaf and consistency constraints = consistent trees; the
   row constraints are implied                                             *)
Solutions ==
  {Q \in SUBSET P(s) :
     /\ \A l \in Leaves(k.D) : Cardinality({i \in Q : s.paths[i].leaf = l}) = 1
     /\ \A ns \in NodeSplits(k) :
          \A l1, l2 \in Below(k.D, ns[1]) :
            Cardinality({i \in Q : s.paths[i].leaf = l1 /\ ns \in SplitMap(s.paths[i])})
            = Cardinality({i \in Q : s.paths[i].leaf = l2 /\ ns \in SplitMap(s.paths[i])})}
Sel(Q) == LET q == SetToSeq(Q) IN [i \in 1..Len(q) |-> s.paths[q[i]]]
MasterExact ==
  /\ \A Q \in SUBSET P(s) : Q \in Solutions <=> Consistent(k, Sel(Q))
  /\ \A Q \in Solutions : \A r \in RowIds(k) : Cardinality({i \in Q : r \in s.paths[i].fr}) = 1
  /\ BestTree(k, s.paths) = SetMax({TotalCost(Sel(Q)) : Q \in Solutions})
BestIsBest ==
  hist = <<>> /\ (\A r \in RowIds(k) : k.w[r] = 1) =>
     BestAcc(k, 0, RowIds(k)) = SetMax({TotalCost(TreePaths(a)) : a \in Trees})

(* duals accepted for the columns at hand bound every tree of these columns *)
Duals(vals) ==
  {[alpha |-> [l \in 1..NumLeaves(k.D) |-> v[1][l]], beta |-> v[2],
    gamma |-> [l \in 1..NumLeaves(k.D) |-> [n \in 1..(2 ^ k.D - 1) |-> [x \in 1..Len(k.sp) |-> IF l = 1 THEN v[3][x] ELSE -v[3][x]]]],
    cut |-> <<>>] :
      v \in [1..NumLeaves(k.D) -> vals] \X [RowIds(k) -> {0, 1}] \X [1..Len(k.sp) -> {0, -1, 1}]}
Certificate ==
  k.D = 1 => \A d \in Duals({0, 1, 2}) :
    LET obj == Sum(d.alpha) + Sum(d.beta) IN
    DualsOk(k, [s EXCEPT !.x = <<>>], [d |-> d, obj |-> obj], <<>>) = {} =>
      \A Q \in Solutions : TotalCost(Sel(Q)) <= obj

(* the pricing model: y by (2)-(4), z by (6)-(7) *)
YOk(l, c, y) ==
  \A r \in RowIds(k) :
    LET good == {i \in 1..k.D : (PathNodes(k.D, l)[i] \in LeftNodes(k.D, l)) <=> GoesLeft(k, k.X[r], c[i])} IN
    /\ \A i \in 1..k.D : y[r] = 1 => i \in good
    /\ Cardinality(good) - (k.D - 1) <= y[r]
PricingExact ==
  hist = <<>> => \A l \in Leaves(k.D) : \A c \in Choices(k, l, 1) : \A y \in [RowIds(k) -> {0, 1}] :
    YOk(l, c, y) =>
      /\ {r \in RowIds(k) : y[r] = 1} = FollowRows(k, PathOf(k, l, c))
      /\ \A t \in {0, 1} :
           CostOf(k, FollowRows(k, PathOf(k, l, c)), t)
           = SetMax({SetSum([r \in RowIds(k) |-> k.w[r] * z[r]], RowIds(k)) :
                     z \in {zz \in [RowIds(k) -> {0, 1}] : \A r \in RowIds(k) : zz[r] <= y[r] /\ (zz[r] = 1 => k.y[r] = t)}})
==============================================================================
