------------------------------ MODULE Cliques -------------------------------
(* Design of the enumeration of maximal cliques (C04): several generators,
   each an explicit-stack Bron-Kerbosch search with pivoting, advanced in any
   interleaving by their consumers.                                         *)
EXTENDS Graphs
CONSTANT N, GENS
VARIABLES graph, mach, out, done
vars == <<graph, mach, out, done>>
V == 1..N

\* a machine: path so far, vertices adjacent to all of it, candidates,
\* branches left at this level, and the levels above
Best(G, subg, cand) ==
  {u \in subg : \A w \in subg : Cardinality(cand \cap G[u]) >= Cardinality(cand \cap G[w])}
Start(G) == {[q |-> {}, last |-> 0, subg |-> V, cand |-> V, ext |-> V \ G[u], stack |-> <<>>] :
               u \in Best(G, V, V)}

Init == /\ graph \in [GENS -> AllGraphs(V)]
        /\ mach \in [GENS -> UNION {Start(G) : G \in AllGraphs(V)}]
        /\ \A g \in GENS : mach[g] \in Start(graph[g])
        /\ out = [g \in GENS |-> <<>>]
        /\ done = [g \in GENS |-> FALSE]

\* take a vertex of ext; q is the path above this level
Take(g) ==
  LET m == mach[g]
      G == graph[g]
  IN \E x \in m.ext :
       LET sq == m.subg \cap G[x]
           cq == (m.cand \ {x}) \cap G[x]
           here == [m EXCEPT !.ext = @ \ {x}, !.cand = @ \ {x}]
       IN IF sq = {}
          THEN /\ out' = [out EXCEPT ![g] = Append(@, m.q \cup {x})]
               /\ mach' = [mach EXCEPT ![g] = here]
               /\ UNCHANGED <<graph, done>>
          ELSE IF cq = {}
          THEN mach' = [mach EXCEPT ![g] = here] /\ UNCHANGED <<graph, out, done>>
          ELSE \E u \in Best(G, sq, cq) :
                 /\ mach' = [mach EXCEPT ![g] =
                      [q |-> m.q \cup {x}, last |-> x, subg |-> sq, cand |-> cq,
                       ext |-> cq \ G[u],
                       stack |-> Append(m.stack, [q |-> m.q, last |-> m.last, subg |-> m.subg,
                                                  cand |-> here.cand, ext |-> here.ext])]]
                 /\ UNCHANGED <<graph, out, done>>
Up(g) ==
  LET m == mach[g] IN
  /\ m.ext = {} /\ ~done[g]
  /\ IF m.stack = <<>>
     THEN done' = [done EXCEPT ![g] = TRUE] /\ UNCHANGED <<graph, mach, out>>
     ELSE LET top == m.stack[Len(m.stack)] IN
          /\ mach' = [mach EXCEPT ![g] =
               [q |-> top.q, last |-> top.last, subg |-> top.subg, cand |-> top.cand,
                ext |-> top.ext, stack |-> SubSeq(m.stack, 1, Len(m.stack) - 1)]]
          /\ UNCHANGED <<graph, out, done>>
Next == \E g \in GENS : Take(g) \/ Up(g)
Spec == Init /\ [][Next]_vars /\ \A g \in GENS : WF_vars(Take(g) \/ Up(g))

OnlyMaximal == \A g \in GENS : \A i \in DOMAIN out[g] : IsMaximal(graph[g], out[g][i])
NoneTwice == \A g \in GENS : \A i, j \in DOMAIN out[g] : out[g][i] = out[g][j] => i = j
AllAtEnd == \A g \in GENS : done[g] =>
              {out[g][i] : i \in DOMAIN out[g]} = MaxCliques(graph[g])
Ends == \A g \in GENS : <>done[g]
=============================================================================
