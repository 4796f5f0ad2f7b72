----------------------------- MODULE DistTrace ------------------------------
(* C15: recorded structural distances                                       *)
EXTENDS Dist, TraceLib
VARIABLES l, bad
Sets(s) == [i \in DOMAIN s |-> Range(s[i])]
Fails(ev) ==
  IF ev.exc # "" THEN {"distance raised " \o ev.exc} ELSE
  LET P == Sets(ev.pred)
      T == Sets(ev.true)
  IN UNION {
    Clause("arguments left unchanged", ev.unchanged),
    Clause("squared Frobenius distance", ev.whole /\ ev.sfd = Sfd(P, T, ev.n)),
    Clause("structural Hamming distance", ev.whole /\ ev.ushd = Ushd(P, T, ev.n)) }
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
