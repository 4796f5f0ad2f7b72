------------------------------ MODULE StoreOps ------------------------------
(* Histories of making neural models, fitting them (undisturbed, or failing
   somewhere) and other things happening in the process, for StoreTrace.
   Models 1 and 2 may share a directory.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN, FAILING
VARIABLES h
OBJ == {1, 2}
No == [kind |-> "none", k |-> 0]
Points ==
  IF ~FAILING THEN {No}
  ELSE {No} \cup [kind : {"forward", "interrupt"}, k : 1..7] \cup [kind : {"step"}, k : 1..4]
       \cup [kind : {"log"}, k : 1..7] \cup [kind : {"split", "empty"}, k : {0}]
       \cup [kind : {"file"}, k : 1..3]
Init == h = <<>>
Made(o) == \E i \in DOMAIN h : h[i].op = "new" /\ h[i].o = o
Do(r) == Len(h) < LEN /\ h' = Append(h, r)
New == \E o \in OBJ, dir \in {1, 2}, form \in 1..4, seed \in {0, 1, 7} :
  /\ (o = 2 /\ ~Made(1)) => FALSE
  /\ Do([op |-> "new", o |-> o, dir |-> dir, form |-> form, seed |-> seed])
Fit == \E o \in OBJ, set \in 1..5, data \in {1, 2}, at \in Points :
  /\ Made(o)
  /\ Do([op |-> "fit", o |-> o, set |-> set, data |-> data, at |-> at.kind, k |-> at.k])
Reseed == \E o \in OBJ, seed \in {0, 1, 7} : Made(o) /\ Do([op |-> "seed", o |-> o, seed |-> seed])
Noise == h # <<>> /\ h[Len(h)].op # "noise" /\ \E x \in 1..5 : Do([op |-> "noise", x |-> x])
Next == New \/ Fit \/ Fit \/ Reseed \/ Noise
Spec == Init /\ [][Next]_h
Fits == Cardinality({i \in DOMAIN h : h[i].op = "fit"})
Emit == (Len(h) = LEN /\ Fits >= 3) => PrintT("SCN " \o ToJson(h))
=============================================================================
