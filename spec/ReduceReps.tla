----------------------------- MODULE ReduceReps -----------------------------
(* Reduce on one graph of every isomorphism class on N vertices; the classes
   come from a file (lists of neighbour lists), and are checked to be so many
   that every graph is isomorphic to one of them.                          *)
EXTENDS Reduce, Json, IOUtils
File == ndJsonDeserialize(IOEnv.GRAPHS)
Reps == {GraphOf(File[i].adj) : i \in DOMAIN File}
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Perms == {p \in [V -> V] : \A x, y \in V : x # y => p[x] # p[y]}
Image(p, g) == [v \in V |-> {p[u] : u \in g[CHOOSE w \in V : p[w] = v]}]
Automorphisms(g) == {p \in Perms : \A v \in V : g[p[v]] = {p[u] : u \in g[v]}}
\* orbit-stabilizer: the orbits of the representatives make up all graphs
RECURSIVE SumOrbits(_)
SumOrbits(i) == IF i = 0 THEN 0
  ELSE Fact(N) \div Cardinality(Automorphisms(GraphOf(File[i].adj))) + SumOrbits(i - 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
ASSUME SumOrbits(Len(File)) = Pow2((N * (N - 1)) \div 2)
=============================================================================
