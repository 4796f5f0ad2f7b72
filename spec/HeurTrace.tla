----------------------------- MODULE HeurTrace ------------------------------
(* C05: results of the heuristic.  A line: n, adj, onepc (rows or <<>>), exc,
   unchanged, boolmat, cols, cover (rows)                                   *)
EXTENDS Graphs, TraceLib
VARIABLES l, bad

Fails(ev) ==
  IF ev.exc # "" THEN {"heuristic raised " \o ev.exc}
  ELSE IF ~ev.boolmat \/ ev.cols # ev.n THEN {"boolean latent-by-measurement matrix"}
  ELSE
  LET G == GraphOf(ev.adj)
      C == [i \in DOMAIN ev.cover |-> Range(ev.cover[i])]
      parents(v) == {i \in DOMAIN C : v \in C[i]}
  IN UNION {
    Clause("argument left unchanged", ev.unchanged),
    Clause("as many latents as the largest independent set", Len(ev.cover) = IF ev.onepc # <<>> /\ ev.n > 26 THEN Len(ev.onepc) ELSE MaxIndepSize(G)),
    Clause("every latent has a pure child", \A i \in DOMAIN C : \E v \in C[i] : parents(v) = {i}),
    Clause("every measurement has a parent", \A v \in DOMAIN G : parents(v) # {}),
    Clause("every dependent pair shares a latent", CoversEdges(G, Range(C))),
    IF ev.onepc = <<>> THEN {} ELSE
      Clause("one-pure-child structure recovered exactly",
             Len(ev.cover) = Len(ev.onepc) /\ Range(C) = SetOfSets(ev.onepc)) }

Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
