------------------------------- MODULE Struct -------------------------------
(* Random structures (C06).  A structure is a sequence of columns, each the
   set of parents (latents in 1..k) of a measurement.                       *)
EXTENDS Graphs
Children(cols, i) == {j \in DOMAIN cols : i \in cols[j]}
RECURSIVE EdgeCountTo(_, _)
EdgeCountTo(cols, j) == IF j = 0 THEN 0 ELSE Cardinality(cols[j]) + EdgeCountTo(cols, j - 1)
EdgeCount(cols) == EdgeCountTo(cols, Len(cols))

OwnChildren(cols, k) == \A i \in 1..k : \E j \in DOMAIN cols : cols[j] = {i}
EveryoneHasParents(cols) == \A j \in DOMAIN cols : cols[j] # {}
\* the admissible structures with `extra` edges more than there have to be
Admissible(cols, k, extra) ==
  /\ OwnChildren(cols, k)
  /\ EveryoneHasParents(cols)
  /\ EdgeCount(cols) = Len(cols) + extra
MaxExtra(n, k) == (n - k) * (k - 1)
AllAdmissible(n, k, extra) ==
  {cols \in [1..n -> (SUBSET (1..k)) \ {{}}] : Admissible(cols, k, extra)}

\* x = round(p/q * max), halves in either direction
RoundOf(x, p, q, max) == LET d == 2 * (q * x - p * max) IN d <= q /\ d >= -q
\* a structure up to the order of its latents: its set of sets of children
Shape(cols, k) == {Children(cols, i) : i \in 1..k}

\* the graph of dependences
Induces(cols) == [j \in DOMAIN cols |->
                    {i \in DOMAIN cols \ {j} : cols[i] \cap cols[j] # {}}]
=============================================================================
