------------------------------- MODULE Reduce -------------------------------
(* Design of the cover search (C01, C02, C03): data reduction and branching
   for edge clique covers, after Gramm et al.

   G       the graph
   alive   vertices that rule 1 has not deleted
   unc     edges that are still to be covered
   cover   the committed cliques, a sequence
   dels    deletions of rule 3: <<vertex, prisoners, cliques before it>>
   val     the least number of cliques reachable: committed plus necessary   *)
EXTENDS Graphs

CONSTANT N, GRAPHS     \* GRAPHS = {} for all graphs on 1..N
VARIABLES G, alive, unc, cover, dels, val
vars == <<G, alive, unc, cover, dels, val>>
V == 1..N

H == Induced(G, alive)
MinRest(A, U) == IF U = {} THEN 0 ELSE MinCover(Induced(G, A), U)
Value == Len(cover) + MinRest(alive, unc)

At(U, v) == {e \in U : v \in {e[1], e[2]}}
Partners(U, v) == {u \in V : <<u, v>> \in U \/ <<v, u>> \in U}

\* ---- what the rules do
Removable(A, U) == {v \in A : At(U, v) = {}}
CommonNbhd(A, e) == (G[e[1]] \cap G[e[2]] \cap A) \cup {e[1], e[2]}
ForcedBy(A, U) == {CommonNbhd(A, e) : e \in {d \in U : IsClique(G, CommonNbhd(A, d))}}

Exits(A, v) == {u \in G[v] \cap A : ~(G[u] \cap A \subseteq G[v] \cup {v})}
Prisoners(A, v) == (G[v] \cap A) \ Exits(A, v)
Dominated(A, U, v) ==
  {u \in A : \/ \E p \in Prisoners(A, v) : u \in Partners(U, p)
             \/ u \in Prisoners(A, v) /\ Partners(U, u) \ {v} # {}}
Deletable(A, U) ==
  {v \in A : Partners(U, v) # {} /\ Partners(U, v) \subseteq Dominated(A, U, v)}

\* undo the deletions, last one first, in the cliques committed after them
RECURSIVE Restore(_, _)
Restore(c, d) ==
  IF d = <<>> THEN c
  ELSE LET x == d[Len(d)]
       IN Restore([i \in DOMAIN c |->
                     IF i > x[3] /\ c[i] \cap x[2] # {} THEN c[i] \cup {x[1]} ELSE c[i]],
                  SubSeq(d, 1, Len(d) - 1))

ValidCover(c) ==
  /\ \A i \in DOMAIN c : IsClique(G, c[i])
  /\ \A e \in EdgesOf(G) : \E i \in DOMAIN c : e[1] \in c[i] /\ e[2] \in c[i]

\* ---- the transitions
Init ==
  /\ G \in IF GRAPHS = {} THEN AllGraphs(V) ELSE GRAPHS
  /\ alive = V /\ unc = EdgesOf(G) /\ cover = <<>> /\ dels = <<>>
  /\ val = MinRest(V, EdgesOf(G))

Rule1 ==
  /\ Removable(alive, unc) # {}
  /\ alive' = alive \ Removable(alive, unc)
  /\ UNCHANGED <<G, unc, cover, dels, val>>

Rule2 ==
  \E C \in ForcedBy(alive, unc) :
    /\ cover' = Append(cover, C)
    /\ unc' = unc \ PairsOf(C)
    /\ UNCHANGED <<G, alive, dels, val>>

Rule3 ==
  \E v \in Deletable(alive, unc) :
    /\ unc' = unc \ At(unc, v)
    /\ dels' = Append(dels, <<v, Prisoners(alive, v), Len(cover)>>)
    /\ UNCHANGED <<G, alive, cover, val>>

Branch ==
  \E e \in unc : \E C \in OfEdge(MaxCliques(H), e) :
    /\ cover' = Append(cover, C)
    /\ unc' = unc \ PairsOf(C)
    /\ val' = Len(cover) + 1 + MinRest(alive, unc \ PairsOf(C))
    /\ UNCHANGED <<G, alive, dels>>

Next == Rule1 \/ Rule2 \/ Rule3 \/ Branch
Spec == Init /\ [][Next]_vars

\* ---- properties
\* no rule changes the least number of cliques
RulesKeepValue == val = Value
\* a clique is the only maximal one of an edge iff the common neighbourhood is one
ForcedIsUnique ==
  ForcedBy(alive, unc) =
    {C \in MaxCliques(H) : \E e \in unc : OfEdge(MaxCliques(H), e) = {C}}
\* branching on the maximal cliques of any uncovered edge loses nothing
BranchingIsComplete ==
  \A e \in unc : \E C \in OfEdge(MaxCliques(H), e) :
    Len(cover) + 1 + MinRest(alive, unc \ PairsOf(C)) = val
\* complete runs yield covers, which are minimum if no branch was a bad one
CompleteIsCover ==
  unc = {} => /\ ValidCover(Restore(cover, dels))
              /\ Len(cover) = val
              /\ val >= MinRest(V, EdgesOf(G))
\* every committed clique stays one when restored
RestoredAreCliques == \A i \in DOMAIN cover : IsClique(G, Restore(cover, dels)[i])
\* edges are covered or uncovered, never forgotten: after undoing the
\* deletions, only uncovered edges can be missing if these get covered
Consistent ==
  /\ unc \subseteq EdgesOf(H)
  /\ \A i \in DOMAIN cover : PairsOf(cover[i]) \cap unc = {}
\* the search never gets stuck
NoStuck == unc # {} => ENABLED Branch
=============================================================================
