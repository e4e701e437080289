------------------------------ MODULE LoopMC ------------------------------
(* Exhaustive check of the loop: all environments within small bounds.

   The history variables record what the guarantees of C01-C03 talk about,
   so that the invariants do not just repeat the guards.                   *)
EXTENDS Loop, TLC, Json
CONSTANTS LevelSets, MaxIts, TLims, MaxIter, MaxBatch, Durs, Gen
(* a model value set cannot hold sequences in a configuration file *)
LS == {<<>>, <<0>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 0, 1>>}
MI == {-1, 1, 2}
MIGen == {-1, 2}
TL == {-1, 3}
LSGen == {<<1>>, <<1, 1>>, <<2>>}
VARIABLES k, s,
          hist,      \* the script of environment choices (for replay on the code)
          it,        \* calls of the current iteration: <<l, j, accepted>>
          tot,       \* columns accepted so far
          out        \* <<optimality reported, time limit reported>> at the end

vars == <<k, s, hist, it, tot, out>>

Init == /\ k \in {[levels |-> lv, maxit |-> m, tlim |-> t, isip |-> ip, rmppar |-> "", ippar |-> "",
                   params |-> [l \in 1..Len(lv) |-> [j \in 1..lv[l] |-> ""]]]
                  : lv \in LevelSets, m \in MaxIts, t \in TLims, ip \in (IF Gen THEN {TRUE} ELSE BOOLEAN)}
        /\ s = Start(k) /\ hist = <<>> /\ it = <<>> /\ tot = 0 /\ out = <<>>

Note(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist

Do(e) == Guard(k, s, e) = {} /\ s' = After(k, s, e) /\ UNCHANGED k

Build == Do([op |-> "build", xok |-> TRUE, yok |-> TRUE, t |-> s.now, d |-> 0]) /\ UNCHANGED <<hist, it, tot>>
Solve == \E imp \in (IF Gen THEN {TRUE} ELSE BOOLEAN) :
           /\ s.iter < MaxIter
           /\ Do([op |-> "solve", tok |-> s.iter + 1, imp |-> imp, reset |-> FALSE, par |-> "", t |-> s.now, d |-> 1])
           /\ it' = <<>> /\ UNCHANGED <<hist, tot>>
Upd == \E a \in Sps(k) :
         /\ a \in Sps(k) \ s.upd /\ (Gen => a = First(Sps(k) \ s.upd))
         /\ Do([op |-> "upd", l |-> a[1], j |-> a[2], tok |-> s.tok, xok |-> TRUE, yok |-> TRUE, t |-> s.now, d |-> 0])
         /\ UNCHANGED <<hist, it, tot>>
Ask == \E a \in Sps(k), m \in 0..MaxBatch, d \in Durs :
         /\ Do([op |-> "gen", l |-> a[1], j |-> a[2], tok |-> s.tok, xok |-> TRUE, yok |-> TRUE, par |-> "",
                cols |-> [x \in 1..m |-> x], t |-> s.now, d |-> d])
         /\ it' = Append(it, <<a[1], a[2], 0>>)
         /\ Note([d |-> d, m |-> m]) /\ UNCHANGED tot
Offer == \E r \in BOOLEAN :
         /\ s.pend # <<>>
         /\ Do([op |-> "add", col |-> Head(s.pend), ret |-> r, t |-> s.now, d |-> 0])
         /\ it' = [it EXCEPT ![Len(it)][3] = @ + (IF r THEN 1 ELSE 0)]
         /\ tot' = tot + (IF r THEN 1 ELSE 0)
         /\ Note([r |-> r])
Ip == \E r \in BOOLEAN : Do([op |-> "ip", ret |-> r, par |-> "", t |-> s.now, d |-> 1]) /\ Note([ip |-> r]) /\ UNCHANGED <<it, tot>>
(* Done allows exactly one value of every flag and statistic *)
PrintScript == IF Gen THEN PrintT("SCRIPT " \o ToJson([k |-> k, h |-> hist])) ELSE TRUE
Done == /\ \E o \in BOOLEAN, tl \in BOOLEAN :
             /\ Do([op |-> "done", opt |-> o, tl |-> tl, fitted |-> TRUE, iter |-> s.iter, perf |-> s.iter,
                    nimp |-> s.nimp, ncol |-> s.ncol, tsp |-> s.tsp, tm |-> s.tm, tadd |-> s.tadd, tip |-> s.tip,
                    tel |-> s.now - s.t0])
             /\ out' = <<o, tl>>
        /\ UNCHANGED <<hist, it, tot>> /\ PrintScript
Failed == Do([op |-> "failed", fitted |-> FALSE]) /\ UNCHANGED <<hist, it, tot>> /\ PrintScript /\ out' = <<>>
(* the end, or the artificial bound on the number of iterations *)
Stop == (s.phase = "end" \/ (s.iter = MaxIter /\ Priced(s) /\ s.acc > 0)) /\ UNCHANGED vars
Next == \/ (Build \/ Solve \/ Upd \/ Ask \/ Offer \/ Ip) /\ out' = out
        \/ Done \/ Failed \/ Stop
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* C01 *)
NothingAfterSuccess == \A x, y \in 1..Len(it) : x < y => it[x][3] = 0 /\ Before(it[x], it[y])
LowerLevelsFailed ==
  \A y \in 1..Len(it) : \A a \in Sps(k) :
    a[1] < it[y][1] => \E x \in 1..(y - 1) : it[x][1] = a[1] /\ it[x][2] = a[2] /\ it[x][3] = 0
IntegerOnce == s.phase = "end" => s.ips = IF k.isip THEN 1 ELSE 0
(* C02 *)
OptimalMeansAllFailed ==
  out # <<>> /\ out[1] => /\ {<<it[x][1], it[x][2]>> : x \in 1..Len(it)} = Sps(k)
                          /\ \A x \in 1..Len(it) : it[x][3] = 0
TimeFlagMeansLate == out # <<>> /\ out[2] => k.tlim > 0 /\ s.now > k.tlim /\ ~out[1]
IterationBound == k.maxit > 0 => s.iter <= k.maxit
EndsForOneReason ==
  out # <<>> => \/ out[1] /\ ~out[2]
                \/ out[2] /\ ~out[1]
                \/ k.maxit > 0 /\ s.iter = k.maxit /\ \E x \in 1..Len(it) : it[x][3] > 0
(* C03 *)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
CountsAdd == SumSeq([l \in Lv(k) |-> SumSeq(s.ncol[l])]) = tot
TimesAdd == SumSeq([l \in Lv(k) |-> SumSeq(s.tsp[l])]) + s.tm + s.tadd + s.tip = s.now
==============================================================================
