-------------------------------- MODULE SysMC --------------------------------
(* The loop composed with the contracts of the parts (assume-guarantee).

   The environment is everything the guards of Loop, Bdr and Tree allow: any
   duals that the specification of the master accepts, any set of improving
   columns of the heuristic, any best column of the exact pricing, any order
   of rows.  On all small instances the composition has the properties of a
   complete training run (C15, C28): no column comes twice, training ends, and
   reported optimality means that the objective bounds every model.         *)
EXTENDS Sys, TLC
CONSTANTS Part, Heur, N, NF, DualMax, MaxIts, Few
VARIABLES k, s,
          obj,          \* dual objective of the last master solve
          gens          \* all columns generated so far
vars == <<k, s, obj, gens>>
MI == {-1, 1}
NoLimit == {-1}

Loop0(w, m) == [levels |-> [x \in 1..Len(w) |-> Len(w[x])], maxit |-> m, tlim |-> -1, isip |-> TRUE, rmppar |-> "", ippar |-> "",
                params |-> [x \in 1..Len(w) |-> [j \in 1..Len(w[x]) |-> ""]]]
Hs == IF Heur THEN <<<<<<"heur", 0, 0>>>>>> ELSE <<>>
WantB == Hs \o <<<<<<"exact", 0, 0>>>>>>
WantT == Hs \o <<<<<<"sat", 0, 0>>, <<"sat", 1, 0>>>>>>

Bdrs == {[X |-> X, y |-> y, nf |-> NF, C |-> c, pn |-> 1, pd |-> 1, S |-> 2, tol |-> 0, maxip |-> 99] :
           X \in [1..N -> [1..NF -> {0, 1}]], y \in {y \in [1..N -> {0, 1}] : \A i \in 2..N : y[i - 1] >= y[i]}, c \in {1, 3}}
Trees == {[D |-> 1, K |-> 2, X |-> X, y |-> y, sp |-> <<<<0, 0>>, <<0, 1>>>>, cand |-> <<<<0, 1>>>>,
           w |-> [i \in 1..N |-> 1], rm |-> [r \in 1..N |-> FALSE], rs |-> [r \in 1..N |-> FALSE],
           beta |-> FALSE, gen |-> FALSE, rounds |-> 0, S |-> 1, tol |-> 0] :
            X \in {X \in [1..N -> {<<v>> : v \in 0..2}] : \A i \in 2..N : X[i - 1][1] <= X[i][1] /\ (Few => X[i - 1][1] = 0 /\ X[i][1] = 1)}, y \in {y \in [1..N -> {0, 1}] : y[1] = 0}}      \* up to the names of the labels
Init == /\ k \in (IF Part = "bdr"
                  THEN {[part |-> "bdr", want |-> WantB, loop |-> Loop0(WantB, m), p |-> p] : p \in Bdrs, m \in MaxIts}
                  ELSE {[part |-> "tree", want |-> WantT, loop |-> Loop0(WantT, m), p |-> p] : p \in Trees, m \in MaxIts})
        /\ s = Start(k) /\ obj = 0 /\ gens = {}

(* the guards of the loop and the contracts below; master models are not exported here *)
LDo(e) == /\ L!Guard(k.loop, s.l, e) = {}
          /\ s' = [s EXCEPT !.l = L!After(k.loop, @, e), !.p = IF e.op \in {"build", "solve", "add"} THEN e.part ELSE @,
                            !.sel = IF e.op = "ip" THEN e.sel ELSE @, !.chosen = @ \/ e.op = "ip"]
          /\ UNCHANGED k
kp == k.p

(* all paths of a tree of depth 1, with their best targets *)
PathAt(l, x) ==
  LET q == [leaf |-> l, nodes |-> <<0>>, splits |-> <<x>>]
      fr == T!FollowRows(kp, q)
      t == IF T!CostOf(kp, fr, 0) >= T!CostOf(kp, fr, 1) THEN 0 ELSE 1
  IN [leaf |-> l, nodes |-> <<0>>, splits |-> <<x>>, target |-> t, cost |-> T!CostOf(kp, fr, t)]
First == <<PathAt(0, 0), PathAt(1, 0)>>

Build == /\ LDo([op |-> "build", xok |-> TRUE, yok |-> TRUE, t |-> 0, d |-> 0,
                 part |-> IF Part = "bdr" THEN [s.p EXCEPT !.built = TRUE, !.cl = <<(<<>>)>>]
                          ELSE [s.p EXCEPT !.built = TRUE, !.rows = T!Kept(kp), !.paths = [i \in 1..2 |-> T!Entry(kp, First[i])]]])
         /\ UNCHANGED <<obj, gens>>

DualsB == {[cc |-> cc, cs |-> cs] : cc \in 0..DualMax, cs \in [1..Len(B!Pos(kp)) -> 0..2]}
DualsT == {[alpha |-> a, beta |-> b, cut |-> <<>>,
            gamma |-> [l \in 1..2 |-> [n \in 1..1 |-> [x \in 1..2 |-> IF l = 1 THEN g[x] ELSE -g[x]]]]] :
           a \in [1..2 -> 0..DualMax], b \in [1..N -> {0, 1}], g \in [1..2 -> {-1, 0, 1}]}
Solve ==
  LET ev(x) == [op |-> "solve", tok |-> s.l.iter + 1, imp |-> FALSE, reset |-> FALSE, par |-> "", t |-> 0, d |-> 0, part |-> x] IN
  /\ s.l.phase = "built" \/ (s.l.phase = "price" /\ s.l.pend = <<>>)
  /\ UNCHANGED gens
  /\ IF Part = "bdr"
     THEN \E du \in DualsB :
            LET o == B!Sum(du.cs) - kp.C * du.cc IN
            /\ B!DualsOk(kp, s.p.cl, [cc |-> du.cc, cs |-> du.cs, obj |-> o]) = {}
            /\ obj' = o /\ LDo(ev([s.p EXCEPT !.cc = du.cc, !.cs = du.cs]))
     ELSE \E du \in DualsT :
            LET o == T!Sum(du.alpha) + T!Sum(du.beta) IN
            /\ T!DualsOk(kp, s.p, [d |-> du, obj |-> o], <<>>) = {}
            /\ obj' = o /\ LDo(ev([s.p EXCEPT !.d = du]))

Upd == /\ s.l.phase = "price" /\ s.l.asked = {} /\ s.l.upd # L!Sps(k.loop)
       /\ \E a \in L!Sps(k.loop) :
            /\ a = L!First(L!Sps(k.loop) \ s.l.upd)      \* the order does not matter
            /\ LDo([op |-> "upd", l |-> a[1], j |-> a[2], tok |-> s.l.tok, xok |-> TRUE, yok |-> TRUE, t |-> 0, d |-> 0])
       /\ UNCHANGED <<obj, gens>>

(* answers that the contracts of the subproblems allow *)
Cols == IF Part = "bdr" THEN {<<>>, <<0>>, <<1>>, <<0, 1>>} ELSE {PathAt(l, x) : l \in {0, 1}, x \in {0, 1}}
Answers(place) ==
  LET seqs == {<<>>} \cup {<<c>> : c \in Cols} \cup (IF place[1] = "heur" THEN {q \in Cols \X Cols : q[1] # q[2]} ELSE {})
      ok(q) == IF Part = "bdr"
               THEN IF place[1] = "heur"
                    THEN /\ \A i \in 1..Len(q) : Len(q[i]) = 1 /\ B!Reduced(kp, kp.S, s.p.cc, s.p.cs, B!Range(q[i])) < 0
                         /\ \A F \in B!Clauses(kp, 1) : F # {} /\ B!Reduced(kp, kp.S, s.p.cc, s.p.cs, F) < 0 => \E i \in 1..Len(q) : B!Range(q[i]) = F
                    ELSE B!GuardPrice(kp, [D |-> kp.C, q |-> kp.S, cc |-> s.p.cc, cs |-> s.p.cs, cols |-> q]) = {}
               ELSE T!GuardPrice(kp, s.p, [kind |-> place[1], leaf |-> place[2], target |-> 0, q |-> 1, d |-> s.p.d, cuts |-> <<>>,
                                           cols |-> q, solved |-> TRUE]) = {}
  IN {q \in seqs : ok(q)}
Ask == /\ s.l.phase = "price" /\ s.l.acc = 0 /\ s.l.pend = <<>> /\ s.l.upd = L!Sps(k.loop) /\ L!Open(k.loop, s.l) # {}
       /\ LET a == L!First(L!Open(k.loop, s.l)) IN
          \E q \in Answers(k.want[a[1]][a[2]]) :
            /\ LDo([op |-> "gen", l |-> a[1], j |-> a[2], tok |-> s.l.tok, xok |-> TRUE, yok |-> TRUE, par |-> "", cols |-> q, t |-> 0, d |-> 0])
            /\ gens' = gens \cup {<<c, IF <<c>> \in {<<g[1]>> : g \in gens} THEN 2 ELSE 1>> : c \in {q[i] : i \in 1..Len(q)}}
            /\ UNCHANGED obj
Offer == /\ s.l.pend # <<>>
         /\ LET c == Head(s.l.pend)
                new == Part = "tree" \/ (c # <<>> /\ B!Range(c) \notin B!ClauseSets(s.p.cl))
            IN LDo([op |-> "add", col |-> c, ret |-> new, t |-> 0, d |-> 0,
                    part |-> IF Part = "tree" THEN [s.p EXCEPT !.paths = Append(@, T!Entry(kp, c))]
                             ELSE IF new THEN [s.p EXCEPT !.cl = Append(@, c)] ELSE s.p])
         /\ UNCHANGED <<obj, gens>>
(* every best selection *)
Ip == /\ UNCHANGED <<obj, gens>>
      /\ \E Q \in (IF Part = "bdr" THEN B!Admissible(kp, s.p.cl) ELSE SUBSET (1..Len(s.p.paths))) :
           LET q == T!SetToSeq(Q)
               sel == IF Part = "bdr" THEN [i \in 1..Len(q) |-> T!SetToSeq(q[i])] ELSE [i \in 1..Len(q) |-> s.p.paths[q[i]]]
           IN /\ IF Part = "bdr" THEN B!IpOk(kp, s.p.cl, [ex |-> sel]) = {}
                 ELSE T!GuardIp(kp, s.p, [sel |-> sel, hasm |-> FALSE]) = {}
              /\ LDo([op |-> "ip", ret |-> TRUE, par |-> "", t |-> 0, d |-> 0, sel |-> sel])
Done == /\ \E o \in BOOLEAN :
             LDo([op |-> "done", opt |-> o, tl |-> FALSE, fitted |-> TRUE, iter |-> s.l.iter, perf |-> s.l.iter, nimp |-> s.l.nimp, ncol |-> s.l.ncol,
                  tsp |-> s.l.tsp, tm |-> s.l.tm, tadd |-> s.l.tadd, tip |-> s.l.tip, tel |-> s.l.now - s.l.t0])
        /\ UNCHANGED <<obj, gens>>
Next == Build \/ Solve \/ Upd \/ Ask \/ Offer \/ Ip \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
NoColumnTwice == \A g \in gens : g[2] = 1
Bounded == s.l.iter <= 1 + Cardinality(Cols)
Ends == <>(s.l.phase = "end")
Over == s.l.phase = "stop"
(* reported optimality: the objective of the duals bounds every model there is *)
OptimalBounds ==
  Over /\ s.l.why = "opt" =>
    IF Part = "bdr"
    THEN \A R \in SUBSET B!Clauses(kp, kp.C) : B!RuleCx(R) <= kp.C => obj <= kp.S * B!RuleCost(kp, R)
    ELSE T!BestAcc(kp, 0, T!RowIds(kp)) <= obj
ChosenWithinBound ==
  Over /\ s.chosen =>
    IF Part = "bdr" THEN B!RuleCost(kp, B!ClauseSets(s.sel)) <= B!RuleCost(kp, {}) /\ B!RuleCx(B!ClauseSets(s.sel)) <= kp.C
    ELSE T!Consistent(kp, s.sel) /\ T!TotalCost(s.sel) >= T!TotalCost(First)
                                 /\ (s.l.why = "opt" => T!TotalCost(s.sel) <= obj)
==============================================================================
