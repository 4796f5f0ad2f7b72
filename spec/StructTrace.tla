---------------------------- MODULE StructTrace -----------------------------
(* C06: randomly generated structures.  A line has the arguments (n, k: the
   number of latents asked for or 0, onepc, density = p / q or q = 0 for any),
   and the columns of the result; "support" lines have all structures (sets of
   sets of children, or edges) that many draws with the same arguments gave. *)
EXTENDS Struct, TraceLib
VARIABLES l, bad

Cols(ev) == [j \in DOMAIN ev.cols |-> Range(ev.cols[j])]

OnePC(ev) ==
  LET cols == Cols(ev)
      k == ev.rows
      extra == EdgeCount(cols) - ev.n
  IN UNION {
    Clause("number of latents asked for",
           IF ev.k > 0 THEN k = ev.k ELSE k \in 1..(ev.n - 1)),
    Clause("every latent has a child of its own", OwnChildren(cols, k)),
    Clause("every measurement has a parent", EveryoneHasParents(cols)),
    Clause("number of edges by density",
           IF ev.q = 0 THEN extra \in 0..MaxExtra(ev.n, k)
           ELSE RoundOf(extra, ev.p, ev.q, MaxExtra(ev.n, k))) }

General(ev) ==
  LET cols == Cols(ev)
      G == Induces(cols)
      iso == IsolatedOf(G)
  IN UNION {
    Clause("every latent has a child", \A i \in 1..ev.rows : Children(cols, i) # {}),
    Clause("every measurement has a parent", EveryoneHasParents(cols)),
    Clause("number of dependent pairs by density",
           RoundOf(Cardinality(EdgesOf(G)), ev.p, ev.q, (ev.n * (ev.n - 1)) \div 2)),
    Clause("fewest latents for the dependences",
           NoSmallerCover(G, ev.rows - Cardinality(iso))) }

Support(ev) ==
  LET got == {SetOfSets(ev.seen[i]) : i \in DOMAIN ev.seen}
  IN IF ev.onepc
     THEN LET all(k) == {Shape(c, k) : c \in UNION {AllAdmissible(ev.n, k, x) :
                 x \in {y \in 0..MaxExtra(ev.n, k) :
                          ev.q = 0 \/ RoundOf(y, ev.p, ev.q, MaxExtra(ev.n, k))}}}
              want == IF ev.k > 0 THEN all(ev.k) ELSE UNION {all(k) : k \in 1..(ev.n - 1)}
          IN UNION {
            Clause("only admissible structures", got \subseteq want),
            \* which way a half is rounded is not specified
            Clause("every admissible structure is generated",
                   ev.half \/ want \subseteq got) }
     ELSE LET pairs == {{e[1], e[2]} : e \in AllEdges(1..ev.n)}
              want == {E \in SUBSET pairs :
                         RoundOf(Cardinality(E), ev.p, ev.q, Cardinality(pairs))}
          IN UNION {
            Clause("only dependence graphs of the density", got \subseteq want),
            Clause("every dependence graph is generated", ev.half \/ want \subseteq got) }

Fails(ev) ==
  CASE ev.e = "error" -> Clause("ValueError for latents without the assumption", ev.exc = "ValueError")
    [] ev.exc # "" -> {"generation raised " \o ev.exc}
    [] ev.e = "support" -> Support(ev)
    [] ev.e = "struct" ->
         IF ~ev.shape THEN {"boolean matrix with a column per measurement"}
         ELSE IF ev.onepc THEN OnePC(ev) ELSE General(ev)

Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
