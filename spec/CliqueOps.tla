----------------------------- MODULE CliqueOps ------------------------------
(* Histories of opening and consuming several enumerations, for CliqueTrace *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT GENS, LEN, GRAPHCOUNT
VARIABLES open, h
Init == open = {} /\ h = <<>>
Open == \E g \in GENS, x \in 1..GRAPHCOUNT :
          open' = open \cup {g} /\ h' = Append(h, [op |-> "open", g |-> g, x |-> x])
Adv == \E g \in open, x \in 1..3 :
          UNCHANGED open /\ h' = Append(h, [op |-> "next", g |-> g, x |-> x])
Drain == \E g \in open :
          UNCHANGED open /\ h' = Append(h, [op |-> "drain", g |-> g, x |-> 0])
\* few openings in comparison to advances (there are many graphs to choose from)
Next == Len(h) < LEN /\ (IF Len(h) < 2 \/ Len(h) % 5 = 0 THEN Open ELSE Adv \/ Drain)
Spec == Init /\ [][Next]_<<open, h>>
Emit == Len(h) = LEN => PrintT("SCN " \o ToJson(h))
=============================================================================
