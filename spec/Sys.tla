-------------------------------- MODULE Sys --------------------------------
(* A complete training run: the loop (Loop) composed with the parts of a
   classifier (Bdr or Tree).  A run is one sequence of events; every event of
   the loop is at the same time an event of the part that was called (C29).

   k: part   "bdr" or "tree"
      loop   constants of the loop
      p      constants of the part
      want   the subproblems per level, as <<kind, leaf, target>>
   State: l the loop, p the part, sel the selection of the integer master
   (None before), off the columns offered so far.                          *)
EXTENDS Integers, Sequences, FiniteSets
L == INSTANCE Loop
B == INSTANCE Bdr
T == INSTANCE Tree

Chk(name, cond) == IF cond THEN {} ELSE {name}
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
LoopOps == {"build", "solve", "upd", "gen", "add", "ip", "done", "failed"}

Start(k) == [l |-> L!Start(k.loop), p |-> IF k.part = "bdr" THEN B!Start(k.p) ELSE T!Start(k.p),
             sel |-> <<>>, chosen |-> FALSE, off |-> <<>>]

(* the event of the part that an event of the run is *)
Kind(k, e) == IF e.part[1] = "heur" THEN "fheur" ELSE "fprice"
PartEvent(k, s, e) ==
  CASE e.op = "gen" /\ k.part = "bdr" ->
         [op |-> Kind(k, e), D |-> k.p.C, K |-> 1, cols |-> e.cols]
    [] e.op = "gen" /\ k.part = "tree" ->
         [op |-> "fprice", kind |-> e.part[1], leaf |-> e.part[2], target |-> e.part[3], solved |-> e.solved, cols |-> e.cols]
    [] e.op = "add" /\ k.part = "bdr" -> [op |-> "add", f |-> e.col, ret |-> e.ret, err |-> FALSE, m |-> e.m]
    [] e.op = "add" /\ k.part = "tree" -> [op |-> "add", p |-> e.col, ret |-> e.ret, id |-> e.id, hasm |-> e.hasm, m |-> e.m]
    [] e.op = "solve" /\ k.part = "tree" -> e.solved
    [] e.op = "done" -> [x \in DOMAIN e.end \cup {"op", "gen"} |->
                           CASE x = "op" -> "fitted" [] x = "gen" -> s.off [] OTHER -> e.end[x]]
    [] e.op = "predict" -> [x \in DOMAIN e \cup {IF k.part = "bdr" THEN "ex" ELSE "sel"} |->
                              IF x = (IF k.part = "bdr" THEN "ex" ELSE "sel") THEN s.sel ELSE e[x]]
    [] OTHER -> e
Silent(e) == e.op \in {"upd", "failed"}
PGuard(k, p, e) == IF k.part = "bdr" THEN B!Guard(k.p, p, e) ELSE T!Guard(k.p, p, e)
PAfter(k, p, e) == IF k.part = "bdr" THEN B!After(k.p, p, e) ELSE T!After(k.p, p, e)

(* the parts are in their places *)
Parts(k, e) ==
  Chk("C29.levels", Len(e.parts) = Len(k.want))
  \cup Chk("C29.subproblems_of_the_levels", Len(e.parts) = Len(k.want) => \A l \in 1..Len(k.want) : Bag(e.parts[l]) = Bag(k.want[l]))
Compose(k, s, e) ==
  CASE e.op = "build" -> Parts(k, e)
    [] e.op = "gen" -> Chk("C29.asked_in_its_place", <<e.l, e.j>> \in L!Sps(k.loop))
    [] e.op = "predict" -> Chk("C29.predicts_with_the_selection", s.chosen)
    [] e.op = "ip" -> Chk("C29.integer_master_once", ~s.chosen)
    [] OTHER -> {}

Guard(k, s, e) ==
  (IF e.op \in LoopOps THEN L!Guard(k.loop, s.l, e) ELSE {})
  \cup (IF Silent(e) THEN {} ELSE PGuard(k, s.p, PartEvent(k, s, e)))
  \cup Compose(k, s, e)

After(k, s, e) ==
  [s EXCEPT !.l = IF e.op \in LoopOps THEN L!After(k.loop, @, e) ELSE @,
            !.p = IF Silent(e) THEN @ ELSE PAfter(k, @, PartEvent(k, s, e)),
            !.sel = IF e.op = "ip" THEN (IF k.part = "bdr" THEN e.ex ELSE e.sel) ELSE @,
            !.chosen = @ \/ e.op = "ip",
            !.off = IF e.op = "add" THEN Append(@, e.col) ELSE @]
==============================================================================
