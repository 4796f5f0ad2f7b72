---------------------------- MODULE CliqueTrace -----------------------------
(* C04: recorded enumerations.  A line opens generator g on a graph (with the
   neighbour lists), or has the next cliques it yielded, and whether it ended. *)
EXTENDS Graphs, TraceLib
VARIABLES l, bad, left, open
vars == <<l, bad, left, open>>
GENS == 0..9

\* yields one after the other: each is a maximal clique not yielded before
RECURSIVE Yield(_, _)
Yield(S, ys) ==
  IF ys = <<>> THEN [left |-> S, fails |-> {}]
  ELSE LET C == Range(Head(ys))
           r == Yield(S \ {C}, Tail(ys))
       IN [left |-> r.left,
           fails |-> r.fails \cup
             Clause("yields a maximal clique, and none twice", C \in S) \cup
             Clause("yields every vertex of a clique once", Len(Head(ys)) = Cardinality(C))]

Init == l = 1 /\ bad = <<>> /\ left = [g \in GENS |-> {}] /\ open = [g \in GENS |-> FALSE]
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.exc # "" THEN
       bad' = Note(bad, l, {ev.op \o " raised " \o ev.exc}) /\ UNCHANGED <<left, open>>
     ELSE IF ev.op = "open" THEN
       /\ left' = [left EXCEPT ![ev.g] = MaxCliques(GraphOf(ev.adj))]
       /\ open' = [open EXCEPT ![ev.g] = TRUE]
       /\ UNCHANGED bad
     ELSE
       LET r == Yield(left[ev.g], ev.cliques) IN
       /\ left' = [left EXCEPT ![ev.g] = r.left]
       /\ open' = [open EXCEPT ![ev.g] = ~ev.ended]
       /\ bad' = Note(bad, l, r.fails \cup
            Clause("ends exactly after the last maximal clique", ev.ended => r.left = {}) \cup
            Clause("an ended enumeration stays ended", ~open[ev.g] => ev.ended /\ ev.cliques = <<>>) \cup
            Clause("matrix left unchanged", ev.unchanged) \cup
            \* having asked for more than there were, it must have ended
            Clause("does not end", ~ev.ended => ev.asked = Len(ev.cliques)))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, left, open>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
