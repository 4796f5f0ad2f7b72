-------------------------------- MODULE Heur --------------------------------
(* Design of the one-pure-child heuristic (C05): from any maximum independent
   set, and for any order of the uncovered edges and choice among parents.   *)
EXTENDS Graphs
CONSTANT N, MODE      \* "graphs": every graph; "structures": of 1PC structures
VARIABLES G, truth, cover, todo, waits
vars == <<G, truth, cover, todo, waits>>
V == 1..N

\* structures: sets of children per latent, each with a child of its own
IsOnePC(S) == /\ UNION S = V
              /\ \A C \in S : \E v \in C : \A D \in S : v \in D => D = C
\* every one is made by giving the other measurements parents
Structures ==
  UNION {{{{i} \cup {v \in V \ I : i \in f[v]} : i \in I} :
            f \in [V \ I -> SUBSET I \ {{}}]} : I \in SUBSET V \ {{}}}
Induce(S) == [v \in V |-> UNION {C \in S : v \in C} \ {v}]

MaxIndep(g) == {C \in MaxCliques(Complement(g)) : Cardinality(C) = MaxIndepSize(g)}
Nbhd(g, v) == g[v] \cup {v}
Parents(v) == {i \in DOMAIN cover : v \in cover[i]}
IsCovered(e, c) == \E i \in DOMAIN c : e[1] \in c[i] /\ e[2] \in c[i]

Init ==
  /\ \/ MODE = "graphs" /\ G \in AllGraphs(V) /\ truth = {}
     \/ MODE = "structures" /\ truth \in Structures /\ G = Induce(truth)
  /\ \E I \in MaxIndep(G) :
       /\ cover = [i \in I |-> Nbhd(G, i)]
       /\ todo = {e \in EdgesOf(G) : ~IsCovered(e, [i \in I |-> Nbhd(G, i)])}
  /\ waits = 0

\* explain an edge by a parent of one of its ends
Explain ==
  \E e \in todo : \E x \in {1, 2} : \E i \in Parents(e[x]) :
    /\ cover' = [cover EXCEPT ![i] = @ \cup {e[3 - x]}]
    /\ todo' = todo \ {e}
    /\ UNCHANGED <<G, truth, waits>>
Next == Explain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverWaits == \A e \in todo : Parents(e[1]) # {} /\ Parents(e[2]) # {}
Finishes == <>(todo = {})
Size == Cardinality(DOMAIN cover) = MaxIndepSize(G)
AtEnd == todo = {} =>
  /\ \A i \in DOMAIN cover : \E v \in cover[i] : Parents(v) = {i}
  /\ \A v \in V : Parents(v) # {}
  /\ \A e \in EdgesOf(G) : IsCovered(e, cover)
StructuresAreOnePC == truth # {} => IsOnePC(truth)
Recovered == MODE = "structures" => {cover[i] : i \in DOMAIN cover} = truth
=============================================================================
