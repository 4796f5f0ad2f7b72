---------------------------- MODULE ReduceTrace -----------------------------
(* C03: recorded histories of reductions.  Every line has the state of every
   object after the operation: its vertices, uncovered edges, cliques, and
   the number of edges it reports.  The relations between the states before
   and after are the transitions of Reduce, as far as they are promised:
   which of several possible cliques rule 2 commits, and if and where rule 3
   applies, is left open, but not what they may change.                     *)
EXTENDS Graphs, TraceLib
VARIABLES l, bad, G, st

E(o) == {<<o.unc[i][1], o.unc[i][2]>> : i \in DOMAIN o.unc}
A(o) == Range(o.alive)
Cov(o) == [i \in DOMAIN o.cover |-> Range(o.cover[i])]

\* too many vertices to decide the least number of cliques
Small == Cardinality(DOMAIN G) <= 10
Value(o) == Len(o.cover) + IF E(o) = {} THEN 0 ELSE MinCover(Induced(G, A(o)), E(o))
SameValue(a, b) == Small => Value(b) = Value(a)
WellFormed(o) ==
  /\ o.sym
  /\ A(o) \subseteq DOMAIN G
  /\ \A e \in E(o) : e[1] \in A(o) /\ e[2] \in A(o) /\ e[2] \in G[e[1]]
  /\ \A i \in DOMAIN o.cover : IsClique(G, Range(o.cover[i]))

Uncovered(U, v) == {e \in U : v \in {e[1], e[2]}}
Removable(o) == {v \in A(o) : Uncovered(E(o), v) = {}}
MC(o) == MaxCliques(Induced(G, A(o)))
Forced(o) == ForcedOf(Induced(G, A(o)), E(o))

\* the committed cliques are those from before plus n new ones
Extends(a, b, n) ==
  Len(b.cover) = Len(a.cover) + n /\ SubSeq(b.cover, 1, Len(a.cover)) = a.cover

Rule1(a, b) == UNION {
  Clause("rule 1 deletes exactly the vertices without uncovered edges",
         A(b) = A(a) \ Removable(a)),
  Clause("rule 1 covers nothing", E(b) = E(a) /\ b.cover = a.cover)}

Rule2(a, b) ==
  LET F == Forced(a) IN
  IF F = {} THEN Clause("rule 2 does not apply without an edge in only one maximal clique",
                        E(b) = E(a) /\ b.cover = a.cover /\ A(b) = A(a) /\ ~b.applied)
  ELSE UNION {
    Clause("rule 2 applies and commits one clique", Extends(a, b, 1) /\ b.applied),
    Clause("rule 2 takes one clique off the budget", b.k = a.k - 1),
    IF ~Extends(a, b, 1) THEN {} ELSE LET C == Cov(b)[Len(b.cover)] IN UNION {
      Clause("rule 2 commits the only maximal clique of an edge", C \in F),
      Clause("rule 2 marks the edges of the clique as covered", E(b) = E(a) \ PairsOf(C)),
      Clause("rule 2 deletes no vertices", A(b) = A(a)) }}

Rule3(a, b) == UNION {
  Clause("rule 3 commits nothing", b.cover = a.cover /\ A(b) \subseteq A(a)),
  Clause("rule 3 only drops edges", E(b) \subseteq E(a)),
  Clause("rule 3 keeps the least number of cliques", SameValue(a, b)) }

Reduce(a, b, k) == UNION {
  Clause("reduction only covers", E(b) \subseteq E(a) /\ A(b) \subseteq A(a)),
  Clause("reduction extends the cover", Extends(a, b, Len(b.cover) - Len(a.cover))),
  Clause("reduction keeps the least number of cliques", SameValue(a, b)),
  Clause("reduction accounts for its cliques", b.k = k - (Len(b.cover) - Len(a.cover))),
  Clause("reduction ends when rules 1 and 2 no longer apply or the budget is spent",
         b.k < 0 \/ (Removable(b) = {} /\ Forced(b) = {})) }

Branch(a, b, ev) ==
  LET enumerated == SetOfSets(ev.cliques)
      big == {C \in enumerated : Cardinality(C) > 1}
      mc == MC(a)
  IN UNION {
    Clause("branching enumerates the maximal cliques of an uncovered edge",
           \E e \in E(a) : big = OfEdge(mc, e)),
    Clause("branching offers no clique twice", Len(ev.cliques) = Cardinality(enumerated)),
    IF ~Extends(a, b, 1) THEN {"branching commits the clique"} ELSE
      Clause("branching marks the edges of the clique as covered",
             /\ E(b) = E(a) \ PairsOf(Cov(b)[Len(b.cover)])
             /\ A(b) = A(a)) }

\* a run to the end on a throw-away copy: `final` is the restored cover
Complete(a, ev) ==
  LET F == [i \in DOMAIN ev.final |-> Range(ev.final[i])] IN UNION {
    Clause("restored cover has no more cliques", Len(ev.final) <= ev.committed),
    Clause("restored cover is of cliques", \A i \in DOMAIN F : IsClique(G, F[i])),
    Clause("restored cover covers every edge", CoversEdges(G, Range(F))) }

Same(o) == [x \in {"alive", "unc", "cover"} |-> o[x]]

OpFails(ev, pre, post) ==
  LET o == ev.o + 1          \* objects are numbered from 0
      a == pre[o]
      b == post[o]
      others == {i \in DOMAIN post : i # o}
  IN UNION {
    IF ev.op = "jump" THEN {} ELSE
    Clause("work on one graph shows in another",
           \A i \in others : i \in DOMAIN pre /\ ~(ev.op = "copy" /\ i = ev.x + 1)
                             => Same(post[i]) = Same(pre[i])),
    IF ~b.live THEN {} ELSE UNION {
      Clause("state is well-formed", WellFormed(b)),
      Clause("number of uncovered edges is right", b.edges = Cardinality(E(b))),
      Clause("number of vertices is right", b.verts = Cardinality(A(b))),
      IF ~WellFormed(b) THEN {} ELSE
      CASE ev.op = "graph" -> Clause("new graph is itself", A(b) = DOMAIN G /\ E(b) = EdgesOf(G))
        [] ev.op = "copy" ->
             LET c == post[ev.x + 1] IN UNION {
               Clause("copying leaves the copied graph alone", Same(a) = Same(b)),
               Clause("a copy has the same uncovered graph",
                      Range(c.alive) = A(b) /\ E(c) = E(b)),
               Clause("number of uncovered edges is right", c.edges = Cardinality(E(c))) }
        [] ev.op = "rule1" -> Rule1(a, b)
        [] ev.op = "rule2" -> Rule2(a, b)
        [] ev.op = "rule3" -> Rule3(a, b)
        [] ev.op = "reduce" -> Reduce(a, b, ev.k)
        [] ev.op = "branch" -> Branch(a, b, ev)
        [] ev.op = "complete" -> Complete(a, ev) \cup
             Clause("work on a copy shows in its original", Same(a) = Same(b))
        [] ev.op = "reset" -> Clause("reset restores the graph",
             A(b) = DOMAIN G /\ E(b) = EdgesOf(G) /\ b.cover = <<>>)
        [] ev.op \in {"skip", "jump"} -> {} }}

Init == l = 1 /\ bad = <<>> /\ G = <<>> /\ st = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         g == IF ev.op = "graph" THEN GraphOf(ev.adj) ELSE G
     IN /\ G' = g
        /\ st' = IF ev.exc = "" THEN ev.st ELSE st
        /\ bad' = Note(bad, l, IF ev.exc # "" THEN {ev.op \o " raised " \o ev.exc}
                               ELSE IF ev.op = "graph"
                                    THEN Clause("new graph is itself",
                                           /\ Range(ev.st[1].alive) = DOMAIN g
                                           /\ E(ev.st[1]) = EdgesOf(g)
                                           /\ ev.st[1].edges = Cardinality(EdgesOf(g)))
                                    ELSE OpFails(ev, st, ev.st))
  /\ l' = l + 1
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, G, st>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad, G, st>>
=============================================================================
