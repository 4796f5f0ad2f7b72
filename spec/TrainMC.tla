------------------------------ MODULE TrainMC -------------------------------
EXTENDS Train
CONSTANTS NT, NV, B, E
VARIABLES s, steps, passes, weights, losses
vars == <<s, steps, passes, weights, losses>>
T == 1..NT
V == (NT + 1)..(NT + NV)
Init == s = Fresh /\ steps = 0 /\ passes = [i \in T \cup V |-> 0] /\ weights = 0 /\ losses = 0
Count(batch) == passes' = [i \in T \cup V |-> passes[i] + (IF i \in batch THEN 1 ELSE 0)]
TrainBatch == \E b \in SUBSET T : b # {} /\ TrainOK(s, b, T, B)
  /\ s' = AfterTrain(s, b) /\ Count(b) /\ UNCHANGED <<steps, weights, losses>>
Step == s.phase = "step" /\ s' = AfterStep(s, T) /\ steps' = steps + 1 /\ weights' = weights + 1
  /\ UNCHANGED <<passes, losses>>
ValidBatch == \E b \in SUBSET V : b # {} /\ ValidOK(s, b, V, B)
  /\ s' = AfterValid(s, b, V, E) /\ Count(b)
  /\ losses' = (IF s'.phase # "valid" THEN losses + 1 ELSE losses)
  /\ UNCHANGED <<steps, weights>>
Next == TrainBatch \/ Step \/ ValidBatch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Protocol == s.phase = "done" =>
  /\ \A i \in T \cup V : passes[i] = E
  /\ steps = E * Ceil(NT, B) /\ losses = E /\ weights = steps
Ends == <>(s.phase = "done")
=============================================================================
