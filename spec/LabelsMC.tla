----------------------------- MODULE LabelsMC -----------------------------
(* The encoding: for every label vector and every order preserving renaming.
   The encoder of the code is modelled as what it is: the sorted distinct
   labels are found by insertion, a label is encoded as its position.      *)
EXTENDS Labels, TLC, Json
CONSTANTS Vocab, N, Gen
VARIABLES y, cl, pos, f
vars == <<y, cl, pos, f>>

(* order preserving injections of the vocabulary into a twice as big one *)
Big == 1..(2 * Cardinality(Vocab))
Renamings == {g \in [Vocab -> Big] : \A a, b \in Vocab : a < b => g[a] < g[b]}
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF Head(q) = x THEN q
                ELSE IF x < Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)

Init == /\ y \in UNION {[1..n -> Vocab] : n \in 1..N} /\ cl = <<>> /\ pos = 1
        /\ f \in (IF Gen THEN {CHOOSE g \in Renamings : TRUE} ELSE Renamings)
Next == /\ pos <= Len(y)
        /\ cl' = Insert(cl, y[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<y, f>>
        /\ IF Gen /\ pos = Len(y) THEN PrintT("SCRIPT " \o ToJson([y |-> y])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Ren == [r \in 1..Len(y) |-> f[y[r]]]
Fitted == pos > Len(y)
ClassesAreSorted == Fitted => cl = Classes(y) /\ \A a, b \in 1..Len(cl) : a < b => cl[a] < cl[b]
PositionIsCode == Fitted => \A r \in 1..Len(y) : cl[Encode(y)[r] + 1] = y[r]
RoundTrip == Fitted => Decode(cl, Encode(y)) = y
CodesAreDense == Fitted => Range(Encode(y)) = 0..(Len(cl) - 1)
RenamingKeepsCodes == Fitted => Encode(Ren) = Encode(y)
RenamingOfClasses == Fitted => Classes(Ren) = [c \in 1..Len(cl) |-> f[cl[c]]]
==============================================================================
