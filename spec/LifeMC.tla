------------------------------ MODULE LifeMC ------------------------------
(* The life cycle as the code implements it: an estimator object holds its
   parameters, a master problem that is created in every fit from the current
   parameters, the label encoder of the last fit and the fitted flag; the
   splits that the caller hands in are shared by the estimators and carry the
   cuts of the model that was built last.  All histories up to Len events are
   executed and every one of them is a behaviour of Life.

   Fresh = FALSE and Clear = FALSE are the two mistakes that the code avoids
   (problems of the constructor are reused; cuts of earlier models stay):
   with either of them the invariant fails.                                *)
EXTENDS Life, TLC, Json
CONSTANTS NP, ND, NE, MaxLen, Fresh, Clear, Gen
VARIABLES obj,       \* the estimator objects
          cuts,      \* cuts stored in the shared splits
          s, bad, h
vars == <<obj, cuts, s, bad, h>>
P == 1..NP
D == 1..ND
NoMp == [par |-> 0, cols |-> {}, sol |-> 0]

(* fingerprint of a model: its parameters, its data, and what was left over *)
K == [tol |-> 0, det |-> [p \in P |-> [d \in D |-> TRUE]],
      ref |-> [p \in P |-> [d \in D |-> <<p, {d}, {}>>]],
      weak |-> [p \in P |-> [d \in D |-> 0]],
      pred |-> [p \in P |-> [d \in D |-> <<<<p, d, d>>>>]]]

Step(e) == /\ bad' = bad \cup Guard(K, s, e) /\ s' = After(K, s, e)
           /\ h' = Append(h, e)
New == \E p \in P :
  /\ Len(obj) < NE
  /\ obj' = Append(obj, [par |-> p, mp |-> [NoMp EXCEPT !.par = p], enc |-> 0, fitted |-> FALSE])
  /\ Step([op |-> "new", e |-> Len(obj) + 1, p |-> p, params |-> TRUE]) /\ UNCHANGED cuts
SetP == \E e \in 1..Len(obj), p \in P :
  /\ obj[e].par # p
  /\ obj' = [obj EXCEPT ![e].par = p]
  /\ Step([op |-> "setp", e |-> e, p |-> p, params |-> TRUE]) /\ UNCHANGED cuts
Clone == \E e \in 1..Len(obj) :
  /\ Len(obj) < NE
  /\ obj' = Append(obj, [par |-> obj[e].par, mp |-> [NoMp EXCEPT !.par = obj[e].par], enc |-> 0, fitted |-> FALSE])
  /\ Step([op |-> "clone", e |-> e, params |-> TRUE]) /\ UNCHANGED cuts
Fit == \E e \in 1..Len(obj), d \in D :
  LET old == IF Fresh THEN [NoMp EXCEPT !.par = obj[e].par] ELSE obj[e].mp
      left == IF Clear THEN {} ELSE cuts
      mp == [old EXCEPT !.cols = @ \cup {d}, !.sol = d]
  IN /\ obj' = [obj EXCEPT ![e].mp = mp, ![e].enc = d, ![e].fitted = TRUE]
     /\ cuts' = left \cup {<<e, d>>}
     /\ Step([op |-> "fit", e |-> e, d |-> d, fp |-> <<mp.par, mp.cols, left>>, weak |-> 0, self |-> TRUE, pure |-> TRUE,
              params |-> TRUE, lists |-> TRUE])
FitBad == \E e \in 1..Len(obj) :
  /\ obj' = [obj EXCEPT ![e].enc = 0]
  /\ Step([op |-> "fitbad", e |-> e, refused |-> TRUE, pure |-> TRUE]) /\ UNCHANGED cuts
Predict == \E e \in 1..Len(obj) :
  /\ UNCHANGED <<obj, cuts>>
  /\ IF obj[e].fitted
     THEN s[e].m # Unknown /\ Step([op |-> "predict", e |-> e, rows |-> <<1>>, out |-> <<<<obj[e].mp.par, obj[e].mp.sol, obj[e].enc>>>>,
                pure |-> TRUE, same |-> TRUE, params |-> TRUE, lists |-> TRUE])
     ELSE Step([op |-> "early", e |-> e, refused |-> TRUE])
Emit == IF Gen /\ Len(h') = MaxLen
         THEN PrintT("SCRIPT " \o ToJson([h |-> [i \in 1..MaxLen |-> [op |-> h'[i].op, e |-> h'[i].e,
                     p |-> IF "p" \in DOMAIN h'[i] THEN h'[i].p ELSE 0, d |-> IF "d" \in DOMAIN h'[i] THEN h'[i].d ELSE 0]]])) ELSE TRUE
Init == obj = <<>> /\ cuts = {} /\ s = <<>> /\ bad = {} /\ h = <<>>
Next == Len(h) < MaxLen /\ (New \/ SetP \/ Clone \/ Fit \/ FitBad \/ Predict) /\ Emit
Spec == Init /\ [][Next]_vars
Conforms == bad = {}
FittedIffModel == \A e \in 1..Len(obj) : obj[e].fitted <=> s[e].m # None
(* the history is not part of the state unless it is printed *)
View == IF Gen THEN <<obj, cuts, s, bad, h>> ELSE <<obj, cuts, s, bad, Len(h)>>
==============================================================================
