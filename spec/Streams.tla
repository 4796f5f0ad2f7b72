------------------------------ MODULE Streams -------------------------------
(* Random generators as streams (C09).  Every operation with a generator
   consumes from that generator only; a result is a function of the seed and
   of the operations done with the generator before.  Generators here are
   positions in a fixed sequence of draws; operations take 1 or 2 draws.
   SHARED makes the wrong design, in which operations of one generator also
   advance another (the defect that was in mcm()).                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS LEN, SHARED
Streams == {"own1", "own2", "default", "global"}
VARIABLES pos, hist, results
vars == <<pos, hist, results>>
Takes(op) == IF op = "structure" THEN 1 ELSE 2
Init == pos = [s \in Streams |-> 0] /\ hist = [s \in Streams |-> <<>>] /\ results = {}
Do(s, op) ==
  /\ Len(hist["own1"]) + Len(hist["own2"]) + Len(hist["default"]) + Len(hist["global"]) < LEN
  /\ LET from == IF SHARED /\ op = "model" THEN "default" ELSE s
     IN /\ pos' = [pos EXCEPT ![from] = @ + Takes(op)]
        /\ results' = results \cup {<<s, hist[s], op, from, pos[from]>>}
  /\ hist' = [hist EXCEPT ![s] = Append(@, op)]
Next == \E s \in Streams, op \in {"structure", "model"} : Do(s, op)
Spec == Init /\ [][Next]_vars
\* a result: where its draws came from
RECURSIVE Consumed(_)
Consumed(h) == IF h = <<>> THEN 0 ELSE Takes(h[Len(h)]) + Consumed(SubSeq(h, 1, Len(h) - 1))
OwnHistoryDetermines == \A r \in results : r[4] = r[1] /\ r[5] = Consumed(r[2])
OthersUntouched == \A s \in Streams : pos[s] = Consumed(hist[s])
=============================================================================
