------------------------------ MODULE EditOps -------------------------------
(* Histories of editing, copying and exporting, for EditTrace               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT OBJ, LEN
VARIABLES live, h
Do(name, o, x) == h' = Append(h, [op |-> name, o |-> o, x |-> x])
Init == live = {0} /\ \E x \in 1..60 : h = <<[op |-> "graph", o |-> 0, x |-> x]>>
Copy == \E o \in live, p \in OBJ : o # p /\ live' = live \cup {p} /\ Do("copy", o, p)
On(name, S) == \E o \in live, x \in S : UNCHANGED live /\ Do(name, o, x)
Next == Len(h) < LEN /\
  (Copy \/ On("add", 1..6) \/ On("remove", 1..6) \/ On("aux", {1})
   \/ \E x \in {1} : UNCHANGED live /\ Do("export", 0, x))
Spec == Init /\ [][Next]_<<live, h>>
Emit == Len(h) = LEN => PrintT("SCN " \o ToJson(h))
=============================================================================
