----------------------------- MODULE ReduceOps ------------------------------
(* Generates histories of operations on reducible graphs, for ReduceTrace.
   Objects are the graph given by the user (0) and copies made for reduction
   (1..OBJ); only copies are reduced.  DELETING: mostly by rule 3, on several
   copies in turn.                                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT OBJ, LEN, GRAPHCOUNT, DELETING
VARIABLES live, h
vars == <<live, h>>

Do(r) == h' = Append(h, r)
Init == /\ live = {0}
        /\ \E g \in 1..GRAPHCOUNT : h = <<[op |-> "graph", o |-> 0, x |-> g]>>
Copy == \E o \in live, p \in 1..OBJ :
          o # p /\ live' = live \cup {p} /\ Do([op |-> "copy", o |-> o, x |-> p])
On(name, args) == \E o \in live \ {0}, x \in args :
          UNCHANGED live /\ Do([op |-> name, o |-> o, x |-> x])
Next ==
  /\ Len(h) < LEN
  /\ IF Len(h) = LEN - 1 THEN UNCHANGED live /\ Do([op |-> "end", o |-> 0, x |-> 0])
     ELSE IF live = {0} THEN Copy
     ELSE IF DELETING THEN
             \/ Copy \/ On("rule13", 0..4) \/ On("rule3", {0}) \/ On("rule2", {0}) \/ On("branch", 0..2)
     ELSE \/ Copy
          \/ On("rule1", {0}) \/ On("rule2", {0}) \/ On("rule3", {0})
          \/ On("rule3", {1}) \/ On("rule2", {1})
          \/ On("reduce", {1, 2, 30}) \/ On("branch", 0..5)
          \/ On("complete", 0..2) \/ On("reset", {0})
Spec == Init /\ [][Next]_vars
Emit == Len(h) = LEN => PrintT("SCN " \o ToJson(h))
=============================================================================
