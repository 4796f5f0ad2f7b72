----------------------------- MODULE StreamOps ------------------------------
(* Generates interleavings of operations on generators, for StreamTrace:
   streams 1 and 2 have generators of their own (of the same or different
   seeds), 0 is the default ones, -1 is everything else in the process.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS LEN
VARIABLES h
Ops == {"structure", "structure2", "general", "model", "modelof", "sample", "fitmle", "fitlse", "devsample"}
Init == \E s \in {<<1, 1>>, <<1, 2>>} : h = <<[s |-> 0, op |-> "seeds", x |-> s[1], y |-> s[2]]>>
Do(s, op, x) == h' = Append(h, [s |-> s, op |-> op, x |-> x, y |-> 0])
Has(s, ops) == \E i \in 2..Len(h) : h[i].s = s /\ h[i].op \in ops
Next ==
  /\ Len(h) < LEN
  /\ \/ \E s \in {1, 2}, op \in Ops, x \in {1, 2} :
          /\ op = "sample" => Has(s, {"model", "modelof"})
          /\ op = "devsample" => Has(s, {"fitmle", "fitlse"})
          /\ Do(s, op, x)
     \/ \E op \in {"structure", "general", "model", "modelof", "fitmle"} : Do(0, op, 1)
     \/ \E op \in {"npseed", "npdraw", "torchseed", "torchdraw", "newgen", "neural"} : Do(9, op, 1)
Spec == Init /\ [][Next]_h
Emit == Len(h) = LEN => PrintT("SCN " \o ToJson(h))
=============================================================================
