------------------------------ MODULE GraphsMC ------------------------------
(* Checks the operators of Graphs against their definitions, on every graph
   on up to N vertices.                                                    *)
EXTENDS Graphs
CONSTANT N
VARIABLE G
Init == \E n \in 0..N : G \in AllGraphs(1..n)
Next == UNCHANGED G
Spec == Init /\ [][Next]_G

Covers(k) == {s \in SUBSET MaxCliquesDef(G) : Cardinality(s) = k /\ CoversEdges(G, s)}
CliquesRight == MaxCliques(G) = MaxCliquesDef(G)
MinRight ==
  LET k == MinCover(G, EdgesOf(G))
  IN Covers(k) # {} /\ (k > 0 => Covers(k - 1) = {}) /\ NoSmallerCover(G, k)
     /\ ~NoSmallerCover(G, k + 1)
ForcedRight == \A U \in {EdgesOf(G)} \cup {{e} : e \in EdgesOf(G)} : ForcedOf(G, U) = ForcedDef(G, U)
IndepRight ==
  MaxIndepSize(G) = (CHOOSE k \in 0..N :
     /\ \E S \in SUBSET DOMAIN G : Cardinality(S) = k /\ \A u, v \in S : v \notin G[u]
     /\ ~\E S \in SUBSET DOMAIN G : Cardinality(S) = k + 1 /\ \A u, v \in S : v \notin G[u])
=============================================================================
