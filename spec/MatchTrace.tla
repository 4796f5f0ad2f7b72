----------------------------- MODULE MatchTrace -----------------------------
(* C16: recorded weight distances, exact in units of 1 / ev.unit^2          *)
EXTENDS Match, TraceLib
VARIABLES l, bad
Fails(ev) ==
  IF ev.exc # "" THEN {"distance raised " \o ev.exc} ELSE
  LET k == Len(ev.pred)
      C == TLCEval(CostMatrix(ev.pred, ev.true, ev.m, ev.abs))
      best == TLCEval(Best(C, k))
  IN UNION {
    Clause("arguments left unchanged", ev.unchanged),
    Clause("reports an order of the predicted latents", IsPerm(ev.perm, k)),
    Clause("least distance over all orders", ev.whole /\ ev.dist = best),
    IF ~IsPerm(ev.perm, k) THEN {} ELSE
      Clause("the reported order attains the least distance",
             PermCost(C, ev.perm, k) = best) }
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
