------------------------------- MODULE Args -------------------------------
(* Malformed and premature use (C30).

   Events
     tree     a tree instance given to the constructor: nodes, leaves (their
              numbers in the order given), nsplits (splits 0..nsplits-1),
              targets, depth, paths ([leaf, nodes, splits, target]); refused
     levels   subproblems and parameter strings per level (two sequences of
              sizes); refused
     call     what (build, add, solve, ip) on a master; refused, cols (the
              columns of the linear program afterwards), and twin: it is the
              program of a master that only received the accepted calls
     duals    cc and cs (signs of the duals) given to rule pricing; refused
     fit      a data set: rows, cols, len (of y), dims, flat (y is a vector),
              finite, numeric, yfinite, classes; refused, built (calls of any
              problem)
     predict  rows, cols, dims, finite, numeric; refused                  *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Range(f) == {f[x] : x \in DOMAIN f}

(* ------------------------------------------------------------ instances *)
Numbered(q) == \A n \in 1..Len(q) : q[n] = n - 1
BadPath(x, p) ==
  \/ p.leaf \notin Range(x.leaves)
  \/ \E n \in 1..Len(p.nodes) : p.nodes[n] \notin Range(x.nodes)
  \/ \E n \in 1..Len(p.splits) : p.splits[n] \notin 0..(x.nsplits - 1)
  \/ p.target \notin Range(x.targets)
  \/ Len(p.nodes) # x.depth
  \/ Len(p.splits) # x.depth
Malformed(x) == ~Numbered(x.nodes) \/ ~Numbered(x.leaves) \/ \E n \in 1..Len(x.paths) : BadPath(x, x.paths[n])

(* node n has the children 2n+1 and 2n+2; leaves come after all nodes *)
RECURSIVE Above(_)
Above(n) == IF n = 0 THEN {} ELSE {(n - 1) \div 2} \cup Above((n - 1) \div 2)
Pow(d) == 2 ^ d
Complete(x) ==
  /\ ~Malformed(x)
  /\ Len(x.nodes) = Pow(x.depth) - 1 /\ Len(x.leaves) = Pow(x.depth)
  /\ \A n \in 1..Len(x.paths) : Range(x.paths[n].nodes) = Above(Pow(x.depth) - 1 + x.paths[n].leaf)

GuardTree(e) ==
  Chk("C30.nodes_in_order", Numbered(e.nodes) \/ e.refused)
  \cup Chk("C30.leaves_in_order", Numbered(e.leaves) \/ e.refused)
  \cup Chk("C30.paths_refer_to_the_tree", (\A n \in 1..Len(e.paths) : ~BadPath(e, e.paths[n])) \/ e.refused)
  \cup Chk("C30.complete_instances_are_accepted", ~Complete(e) \/ ~e.refused)

(* ------------------------------------------------------------ master problems *)
Start(k) == [built |-> FALSE, cols |-> 0]
Refused(s, op) == op # "build" /\ ~s.built
GuardCall(k, s, e) ==
  Chk("C30.not_before_the_problem_is_built", ~Refused(s, e.what) \/ e.refused)
  \cup Chk("C30.usable_once_built", Refused(s, e.what) \/ ~e.refused)
  \cup Chk("C30.refused_call_leaves_no_trace", ~e.refused \/ e.cols = s.cols)
  \cup Chk("C30.built_once", e.what # "build" \/ ~s.built \/ e.cols = s.cols)
  \cup Chk("C30.every_column_enters", e.what # "add" \/ e.refused \/ e.cols = s.cols + 1)
  \cup Chk("C30.only_accepted_calls_count", e.twin)

(* ------------------------------------------------------------ data *)
FitOk(e) == e.rows >= 1 /\ e.cols >= 1 /\ e.len = e.rows /\ e.dims = 2 /\ e.flat /\ e.finite /\ e.numeric /\ e.yfinite /\ e.classes >= 2
GuardFit(e) ==
  Chk("C30.bad_data_is_refused", FitOk(e) \/ e.refused)
  \cup Chk("C30.refused_before_any_model", FitOk(e) \/ e.built = 0)
  \cup Chk("C30.good_data_is_accepted", ~FitOk(e) \/ ~e.refused)
PredictOk(e) == e.rows >= 1 /\ e.cols >= 1 /\ e.dims = 2 /\ e.finite /\ e.numeric
GuardPredict(e) ==
  Chk("C30.bad_batch_is_refused", PredictOk(e) \/ e.refused)
  \cup Chk("C30.good_batch_is_answered", ~PredictOk(e) \/ ~e.refused)

Negative(e) == e.cc < 0 \/ \E n \in 1..Len(e.cs) : e.cs[n] < 0

Guard(k, s, e) ==
  CASE e.op = "tree" -> GuardTree(e)
    [] e.op = "levels" -> Chk("C30.one_parameter_string_per_subproblem", (e.subs = e.params) = ~e.refused)
    [] e.op = "call" -> GuardCall(k, s, e)
    [] e.op = "duals" -> Chk("C30.negative_duals_are_refused", ~Negative(e) \/ e.refused)
                         \cup Chk("C30.other_duals_are_accepted", Negative(e) \/ ~e.refused)
    [] e.op = "fit" -> GuardFit(e)
    [] e.op = "predict" -> GuardPredict(e)
    [] OTHER -> {"C30.error"}

After(k, s, e) ==
  IF e.op # "call" THEN s
  ELSE [built |-> s.built \/ e.what = "build", cols |-> e.cols]
==============================================================================
