------------------------------ MODULE StructMC ------------------------------
(* The generator of one-pure-child structures: pure children first, then a
   parent for each other measurement, then extra edges, then every
   measurement's parents and the measurements themselves in random order.
   Whatever is chosen is admissible, and everything admissible is chosen.   *)
EXTENDS Struct, FiniteSetsExt
CONSTANT N
VARIABLES pc, k, extra, cols, given
vars == <<pc, k, extra, cols, given>>
Perms(S) == {f \in [S -> S] : \A x, y \in S : x # y => f[x] # f[y]}
Init ==
  /\ pc = "pure" /\ k \in 1..N
  /\ extra \in 0..MaxExtra(N, k)
  /\ cols = [j \in 1..N |-> IF j <= k THEN {j} ELSE {}] /\ given = 0
Parent == pc = "pure" /\ pc' = "extra"
  /\ cols' = [j \in 1..N |-> IF j > k THEN {1} ELSE cols[j]] /\ UNCHANGED <<k, extra, given>>
Extra == pc = "extra" /\ given < extra
  /\ \E j \in (k + 1)..N : \E i \in (2..k) \ cols[j] :
       cols' = [cols EXCEPT ![j] = @ \cup {i}]
  /\ given' = given + 1 /\ UNCHANGED <<pc, k, extra>>
Scatter == pc = "extra" /\ given = extra /\ pc' = "order"
  /\ \E f \in [(k + 1)..N -> SUBSET (1..k)] :
       /\ \A j \in (k + 1)..N : Cardinality(f[j]) = Cardinality(cols[j])
       /\ cols' = [j \in 1..N |-> IF j > k THEN f[j] ELSE cols[j]]
  /\ UNCHANGED <<k, extra, given>>
Order == pc = "order" /\ pc' = "done"
  /\ \E p \in Perms(1..N) : cols' = [j \in 1..N |-> cols[p[j]]]
  /\ UNCHANGED <<k, extra, given>>
Next == Parent \/ Extra \/ Scatter \/ Order
Spec == Init /\ [][Next]_vars
Sound == pc = "done" => Admissible(cols, k, extra)
\* an admissible structure is, but for the order of the measurements, one
\* that Scatter can choose
Sorted(c) == \E p \in Perms(1..N) : \A i \in 1..k : c[p[i]] = {i}
Complete == pc = "order" =>
  \A c \in AllAdmissible(N, k, extra) : Sorted(c)
\* every one of them induces a graph that needs that many latents
IsMinimum == pc = "done" =>
  LET G == Induces(cols)
  IN /\ MaxIndepSize(G) = k
     /\ NoSmallerCover(G, k - Cardinality(IsolatedOf(G)))
=============================================================================
