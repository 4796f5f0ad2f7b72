------------------------------ MODULE FuncOps -------------------------------
(* Generates histories of calls for FuncTrace: of two functions, of arguments
   in one of several representations, with two argument objects whose contents
   (one of three) the caller overwrites in between, as it does results.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN
VARIABLES h, c, fs, rs
F == {"cover", "coverv", "heur", "cliques", "adj", "dag", "recover", "sfd", "perm", "permabs",
      "dcov", "fast", "given", "xi", "xino", "edges"}
Add(op, f, o, x) == h' = Append(h, [op |-> op, f |-> f, o |-> o, x |-> x]) /\ UNCHANGED <<fs, rs>>
Init == /\ h = <<>> /\ c = [o \in {1, 2} |-> o]
        /\ \E f, g \in F : fs = {f, g}
        /\ \E r, s \in 0..6 : rs = {0, r, s}
Next ==
  /\ Len(h) < LEN
  /\ \/ \E f \in fs, o \in {1, 2}, r \in rs : Add("call", f, o, r) /\ UNCHANGED c
     \/ \E o \in {1, 2}, x \in 1..3 : x # c[o] /\ Add("write", "", o, x) /\ c' = [c EXCEPT ![o] = x]
     \/ h # <<>> /\ h[Len(h)].op = "call" /\ Add("scribble", "", 0, 0) /\ UNCHANGED c
     \/ \E x \in 0..6 : Add("noise", "", 0, x) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<h, c, fs, rs>>
Emit == Len(h) = LEN => PrintT("SCN " \o ToJson(h))
=============================================================================
