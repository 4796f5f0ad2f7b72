------------------------------ MODULE EccTrace ------------------------------
(* C01, C02: results of the exact search for edge clique covers.
   A line: [e |-> "ecc", n, adj (neighbour lists), exc, unchanged, boolmat,
   cols, cover (rows), check ("valid", "min"), onepc (rows or <<>>)]       *)
EXTENDS Graphs, TraceLib
VARIABLES l, bad

Valid(ev) ==
  LET G == GraphOf(ev.adj)
      V == DOMAIN G
      rows == ev.cover
      sets == [i \in DOMAIN rows |-> Range(rows[i])]
      iso == IsolatedOf(G)
  IN UNION {
       Clause("argument left unchanged", ev.unchanged),
       Clause("boolean matrix", ev.boolmat),
       Clause("one column per measurement", ev.cols = ev.n),
       IF ev.cols # ev.n THEN {} ELSE UNION {
         Clause("no childless latent", \A i \in DOMAIN rows : sets[i] # {}),
         Clause("children of a latent are pairwise dependent",
                \A i \in DOMAIN rows : IsClique(G, sets[i])),
         Clause("every dependent pair shares a latent",
                CoversEdges(G, {sets[i] : i \in DOMAIN rows})),
         Clause("isolated measurements have exactly one latent to themselves",
                \A v \in iso : /\ Cardinality({i \in DOMAIN rows : v \in sets[i]}) = 1
                               /\ \A i \in DOMAIN rows : v \in sets[i] => sets[i] = {v}) } }

Minimum(ev) ==
  LET G == GraphOf(ev.adj)
      rows == ev.cover
      nontriv == {i \in DOMAIN rows : Cardinality(Range(rows[i])) > 1}
  IN UNION {
       Clause("no cover with fewer latents",
              /\ Len(rows) <= Cardinality(EdgesOf(G)) + Cardinality(IsolatedOf(G))
              /\ NoSmallerCover(G, Len(rows) - Cardinality(IsolatedOf(G)))),
       Clause("no latent for a single dependent measurement",
              \A i \in DOMAIN rows :
                 \/ i \in nontriv
                 \/ Range(rows[i]) \subseteq IsolatedOf(G)) }

OnePC(ev) ==
  Clause("one-pure-child structure recovered exactly",
         /\ Len(ev.cover) = Len(ev.onepc)
         /\ SetOfSets(ev.cover) = SetOfSets(ev.onepc))

Fails(ev) ==
  IF ev.exc # "" THEN {"search raised " \o ev.exc}
  ELSE LET v == IF ev.check = "valid" \/ ev.check = "min" THEN Valid(ev) ELSE {}
       IN v \cup (IF ev.check = "min" /\ v = {} THEN Minimum(ev) ELSE {})
            \cup (IF ev.onepc # <<>> THEN OnePC(ev) ELSE {})

Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
