------------------------------ MODULE ArgsMC ------------------------------
(* Instances: a complete one is changed step by step; the constructor scans
   it part by part (first the numbers of the nodes, then of the leaves, then
   path by path) and stops at the first fault.
   Histories: a master that has been told to do something before it is built
   is the master that only received the other calls.                      *)
EXTENDS Args, TLC, Json
CONSTANTS Depths, MaxV, MaxChanges, MaxCalls, Gen, Mode
VARIABLES x, changes, scan, h, m, tw
vars == <<x, changes, scan, h, m, tw>>

Seq0(n) == [i \in 1..n |-> i - 1]
RECURSIVE Up(_)
Up(n) == IF n = 0 THEN <<>> ELSE <<(n - 1) \div 2>> \o Up((n - 1) \div 2)
Base(d) == [nodes |-> Seq0(Pow(d) - 1), leaves |-> Seq0(Pow(d)), nsplits |-> 2, targets |-> <<0, 1>>, depth |-> d,
            paths |-> [l \in 1..2 |-> [leaf |-> (l - 1) * (Pow(d) - 1), nodes |-> Up(Pow(d) - 1 + (l - 1) * (Pow(d) - 1)),
                                       splits |-> [i \in 1..d |-> (i + l) % 2], target |-> l - 1]]]
Cut(q) == SubSeq(q, 1, Len(q) - 1)
Variants(q) == {[q EXCEPT ![i] = v] : i \in 1..Len(q), v \in 0..MaxV}
               \cup (IF q = <<>> THEN {} ELSE {Cut(q)})
               \cup {Append(q, v) : v \in 0..MaxV}
PathVariants(p) == {[p EXCEPT !.leaf = v] : v \in 0..MaxV} \cup {[p EXCEPT !.target = v] : v \in 0..MaxV}
                   \cup {[p EXCEPT !.nodes = q] : q \in Variants(p.nodes)} \cup {[p EXCEPT !.splits = q] : q \in Variants(p.splits)}
Changed(y) == {[y EXCEPT !.nodes = q] : q \in Variants(y.nodes)}
              \cup {[y EXCEPT !.leaves = q] : q \in Variants(y.leaves)}
              \cup {[y EXCEPT !.targets = q] : q \in {<<0>>, <<1>>, <<>>, <<1, 0>>, <<0, 1, 2>>}}
              \cup {[y EXCEPT !.nsplits = v] : v \in 0..3}
              \cup {[y EXCEPT !.depth = v] : v \in 1..3}
              \cup UNION {{[y EXCEPT !.paths[i] = p] : p \in PathVariants(y.paths[i])} : i \in 1..Len(y.paths)}
              \cup {[y EXCEPT !.paths = Cut(@)]}

(* the scan: next (what is looked at), fault *)
NextScan(y, sc) ==
  CASE sc.at <= Len(y.nodes) -> IF y.nodes[sc.at] # sc.at - 1 THEN [sc EXCEPT !.fault = TRUE] ELSE [sc EXCEPT !.at = @ + 1]
    [] sc.at <= Len(y.nodes) + Len(y.leaves) ->
         LET n == sc.at - Len(y.nodes) IN IF y.leaves[n] # n - 1 THEN [sc EXCEPT !.fault = TRUE] ELSE [sc EXCEPT !.at = @ + 1]
    [] OTHER -> LET n == sc.at - Len(y.nodes) - Len(y.leaves) IN
         IF n > Len(y.paths) THEN [sc EXCEPT !.done = TRUE]
         ELSE IF BadPath(y, y.paths[n]) THEN [sc EXCEPT !.fault = TRUE] ELSE [sc EXCEPT !.at = @ + 1]
Scan0 == [at |-> 1, fault |-> FALSE, done |-> FALSE]
RECURSIVE Scan(_, _)
Scan(y, sc) == IF sc.fault \/ sc.done THEN sc ELSE Scan(y, NextScan(y, sc))

M0 == [generated |-> FALSE, cols |-> 0, offered |-> 0]
Do(mm, op) == CASE op = "build" -> IF mm.generated THEN mm ELSE [generated |-> TRUE, cols |-> 2, offered |-> 0]
                [] ~mm.generated -> mm
                [] op = "add" -> [mm EXCEPT !.cols = @ + 1, !.offered = @ + 1]
                [] OTHER -> mm

Init == /\ x \in (IF Mode # "calls" THEN {Base(d) : d \in Depths} ELSE {Base(1)})
        /\ changes = 0 /\ scan = Scan(x, Scan0) /\ h = <<>> /\ m = M0 /\ tw = M0
Change == /\ Mode # "calls" /\ h = <<>> /\ changes < MaxChanges
          /\ \E y \in Changed(x) :
               /\ x' = y /\ scan' = Scan(y, Scan0)
               /\ IF Gen THEN PrintT("SCRIPT " \o ToJson([what |-> "tree", x |-> y])) ELSE TRUE
          /\ changes' = changes + 1 /\ UNCHANGED <<h, m, tw>>
Ended == IF h = <<>> THEN FALSE ELSE h[Len(h)] = "ip" /\ m.generated
Call == /\ Mode # "instances" /\ changes = 0 /\ x = Base(1) /\ Len(h) < MaxCalls /\ ~Ended
        /\ \E op \in {"build", "add", "solve", "ip"} :
             /\ h' = Append(h, op) /\ m' = Do(m, op)
             /\ tw' = IF m.generated \/ op = "build" THEN Do(tw, op) ELSE tw
             /\ IF Gen /\ (Len(h') = MaxCalls \/ Ended') THEN PrintT("SCRIPT " \o ToJson([what |-> "calls", h |-> h'])) ELSE TRUE
        /\ UNCHANGED <<x, changes, scan>>
Next == Change \/ Call
Spec == Init /\ [][Next]_vars

ScanFindsFaults == scan.fault = Malformed(x)
CompleteIsWellFormed == Complete(x) => ~scan.fault
StartsComplete == changes = 0 => Complete(x)
RefusedLeavesNoTrace == m = tw
ColumnsAreAccepted == m.cols = IF m.generated THEN 2 + m.offered ELSE 0
NothingBeforeBuilt == m.generated = (\E i \in 1..Len(h) : h[i] = "build")
==============================================================================
