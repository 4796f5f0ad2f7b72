------------------------------- MODULE Graphs -------------------------------
(* Undirected graphs, their cliques and edge clique covers.  A graph on the
   vertices V is a function from V to the open neighbourhoods.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Rng(s) == {s[i] : i \in DOMAIN s}

\* graph from a sequence of neighbour lists
GraphOf(nb) == [v \in DOMAIN nb |-> Rng(nb[v]) \ {v}]
IsSymmetric(G) == \A u \in DOMAIN G : \A v \in G[u] : u \in G[v]

\* edges are pairs <<u, v>> with u < v
EdgesOf(G) == {e \in (DOMAIN G) \X (DOMAIN G) : e[1] < e[2] /\ e[2] \in G[e[1]]}
FromEdges(V, E) == [v \in V |-> {u \in V : <<u, v>> \in E \/ <<v, u>> \in E}]
AllEdges(V) == {e \in V \X V : e[1] < e[2]}
AllGraphs(V) == {FromEdges(V, E) : E \in SUBSET AllEdges(V)}

Induced(G, S) == [v \in S |-> G[v] \cap S]
Complement(G) == [v \in DOMAIN G |-> (DOMAIN G \ {v}) \ G[v]]

PairsOf(C) == {e \in C \X C : e[1] < e[2]}
IsClique(G, C) == \A u, v \in C : u # v => v \in G[u]
IsMaximal(G, C) == IsClique(G, C) /\ ~\E w \in DOMAIN G \ C : C \subseteq G[w]

\* all maximal cliques (Bron and Kerbosch, with a pivot)
RECURSIVE BK(_, _, _, _), BKLoop(_, _, _, _, _)
BK(G, R, P, X) ==
  IF P = {} THEN (IF X = {} THEN {R} ELSE {})
  ELSE LET u == CHOOSE u \in P \cup X : \A w \in P \cup X :
                  Cardinality(P \cap G[u]) >= Cardinality(P \cap G[w])
       IN BKLoop(G, R, P, X, P \ G[u])
BKLoop(G, R, P, X, todo) ==
  IF todo = {} THEN {}
  ELSE LET v == CHOOSE v \in todo : TRUE
       IN BK(G, R \cup {v}, P \cap G[v], X \cap G[v])
            \cup BKLoop(G, R, P \ {v}, X \cup {v}, todo \ {v})
MaxCliques(G) == IF DOMAIN G = {} THEN {} ELSE BK(G, {}, DOMAIN G, {})

\* the same by definition; TLC compares the two (GraphsMC)
MaxCliquesDef(G) == {C \in SUBSET (DOMAIN G) \ {{}} : IsMaximal(G, C)}

\* independent sets
MaxIndepSize(G) ==
  LET sizes == {Cardinality(C) : C \in MaxCliques(Complement(G))}
  IN IF sizes = {} THEN 0 ELSE CHOOSE x \in sizes : \A y \in sizes : y <= x

\* can the edges U be covered by k of the cliques MC?  Branches on an edge
\* in the fewest cliques.
OfEdge(MC, e) == {C \in MC : e[1] \in C /\ e[2] \in C}

\* cliques that are all of the maximal cliques of some edge in U (by definition
\* and by the common neighbours: GraphsMC compares the two)
ForcedDef(G, U) == LET mc == MaxCliques(G) IN {C \in mc : \E e \in U : OfEdge(mc, e) = {C}}
Closed(G, e) == (G[e[1]] \cap G[e[2]]) \cup {e[1], e[2]}
ForcedOf(G, U) == {C \in {Closed(G, e) : e \in U} : IsClique(G, C)}

\* edges no two of which are in a common clique: a lower bound
RECURSIVE Fooling(_, _)
Fooling(G, U) ==
  IF U = {} THEN 0
  ELSE LET e == CHOOSE e \in U : \A d \in U :
                  Cardinality(G[e[1]] \cap G[e[2]]) <= Cardinality(G[d[1]] \cap G[d[2]])
           joint(d) == IsClique(G, {e[1], e[2], d[1], d[2]})
       IN 1 + Fooling(G, {d \in U : ~joint(d)})

RECURSIVE CanCover(_, _, _, _)
CanCover(G, MC, U, k) ==
  IF U = {} THEN TRUE
  ELSE IF k <= 0 THEN FALSE
  ELSE IF k = 1 THEN \E C \in MC : U \subseteq PairsOf(C)
  ELSE IF Fooling(G, U) > k THEN FALSE
  ELSE LET e == CHOOSE e \in U : \A d \in U :
                  Cardinality(OfEdge(MC, e)) <= Cardinality(OfEdge(MC, d))
       IN \E C \in OfEdge(MC, e) : CanCover(G, MC, U \ PairsOf(C), k - 1)

\* the least number of cliques of G that cover the edges U
RECURSIVE MinFrom(_, _, _, _)
MinFrom(G, MC, U, k) == IF CanCover(G, MC, U, k) THEN k ELSE MinFrom(G, MC, U, k + 1)
MinCover(G, U) == MinFrom(G, MaxCliques(G), U, Fooling(G, U))

\* no cover of G with fewer than k cliques
NoSmallerCover(G, k) ==
  LET U == EdgesOf(G)
  IN Fooling(G, U) >= k \/ ~CanCover(G, MaxCliques(G), U, k - 1)

IsolatedOf(G) == {v \in DOMAIN G : G[v] = {}}
CoversEdges(G, cover) == \A e \in EdgesOf(G) : \E C \in cover : e[1] \in C /\ e[2] \in C
=============================================================================
