------------------------------- MODULE Train --------------------------------
(* The train / validate protocol (C17) as a transition system: in each epoch,
   the training observations in batches, each followed by one optimizer step,
   then the validation observations in batches.  s is the state of a fit; the
   trace specification uses the same operators.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* phase: "train" (before a batch), "step" (a batch was passed, its step is
\* due), "valid", "done"
Fresh == [epoch |-> 1, phase |-> "train", seen |-> {}]
Ceil(a, b) == (a + b - 1) \div b
\* may a batch come next in a phase?
Size(B, total, seen) == IF total - Cardinality(seen) < B THEN total - Cardinality(seen) ELSE B
TrainOK(s, batch, T, B) ==
  /\ s.phase = "train" /\ batch \subseteq T /\ batch \cap s.seen = {}
  /\ Cardinality(batch) = Size(B, Cardinality(T), s.seen)
AfterTrain(s, batch) == [s EXCEPT !.phase = "step", !.seen = @ \cup batch]
AfterStep(s, T) ==
  IF s.seen = T THEN [s EXCEPT !.phase = "valid", !.seen = {}] ELSE [s EXCEPT !.phase = "train"]
ValidOK(s, batch, V, B) ==
  /\ s.phase = "valid" /\ batch \subseteq V /\ batch \cap s.seen = {}
  /\ Cardinality(batch) = Size(B, Cardinality(V), s.seen)
AfterValid(s, batch, V, E) ==
  IF s.seen \cup batch = V
  THEN [epoch |-> s.epoch + 1, phase |-> IF s.epoch = E THEN "done" ELSE "train", seen |-> {}]
  ELSE [s EXCEPT !.seen = @ \cup batch]
=============================================================================
