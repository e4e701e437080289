------------------------------ MODULE Labels ------------------------------
(* Class labels on their way through training and prediction (C04).

   A label is its rank in the vocabulary of the run (an integer), a code is
   what the problems and the model work with.

   Events
     fit      y (ranks), seen (the label vectors that the problems received),
              classes and kept (ranks of classes_ and y_), typed (the classes
              are of the type of the labels), perm: what classes_ contains is
              TRUE only if every entry is one of the labels of the run
     answers  codes (chosen by the model, row by row), out (ranks), typed
     single   refused, built (calls of any problem before the refusal),
              fitted (whether the classifier calls itself fitted)         *)
EXTENDS Integers, Sequences, FiniteSets

Chk(name, cond) == IF cond THEN {} ELSE {name}
Range(f) == {f[x] : x \in DOMAIN f}

Start(k) == [cl |-> <<>>, codes |-> <<>>]

(* the code of label x in a vector with the set of labels L *)
Code(L, x) == Cardinality({v \in L : v < x})
Encode(y) == [r \in 1..Len(y) |-> Code(Range(y), y[r])]
(* the distinct labels in increasing order *)
Classes(y) == LET L == Range(y) IN [c \in 1..Cardinality(L) |-> CHOOSE v \in L : Code(L, v) = c - 1]
Decode(cl, codes) == [r \in 1..Len(codes) |-> cl[codes[r] + 1]]
Single(y) == Cardinality(Range(y)) <= 1

GuardFit(k, s, e) ==
  Chk("C04.single_class_is_refused", ~Single(e.y))
  \cup Chk("C04.codes_seen_by_the_problems", e.seen # <<>> /\ \A q \in 1..Len(e.seen) : e.seen[q] = Encode(e.y))
  \cup Chk("C04.classes", e.classes = Classes(e.y) /\ e.typed)
  \cup Chk("C04.labels_kept", e.kept = e.y)

(* base: the same rows have been asked before, under other names of the classes *)
GuardAnswers(k, s, e) ==
  Chk("C04.model_codes", \A r \in 1..Len(e.codes) : e.codes[r] \in 0..(Len(s.cl) - 1))
  \cup (IF \A r \in 1..Len(e.codes) : e.codes[r] \in 0..(Len(s.cl) - 1)
        THEN Chk("C04.predicted_labels", e.out = Decode(s.cl, e.codes) /\ e.typed) ELSE {})
  \cup Chk("C04.renaming", s.codes = <<>> \/ ~e.det \/ (e.out # <<>> /\ \A r \in 1..Len(e.out) : e.out[r] \in Range(s.cl) /\ Code(Range(s.cl), e.out[r]) = s.codes[r]))

Guard(k, s, e) ==
  CASE e.op = "fit" -> GuardFit(k, s, e)
    [] e.op = "answers" -> GuardAnswers(k, s, e)
    [] e.op = "single" -> Chk("C04.single_class_is_refused", e.refused) \cup Chk("C04.refused_before_any_model", e.built = 0)
    [] OTHER -> {"C04.error"}

After(k, s, e) ==
  CASE e.op = "fit" -> [s EXCEPT !.cl = Classes(e.y)]
    [] e.op = "answers" -> IF s.codes = <<>> /\ e.det THEN [s EXCEPT !.codes = [r \in 1..Len(e.out) |-> Code(Range(s.cl), e.out[r])]] ELSE s
    [] OTHER -> s
==============================================================================
