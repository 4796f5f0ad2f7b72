-------------------------------- MODULE Match -------------------------------
(* Weight distances (C16).  Matrices are sequences of rows of integers; the
   true one is filled up with zero rows.  cost[i][j] is the squared distance
   of predicted row j to true row i.                                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
LOCAL AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RowCost(_, _, _, _)
RowCost(p, t, abs, j) ==
  IF j = 0 THEN 0
  ELSE LET d == IF abs THEN AbsV(p[j]) - AbsV(t[j]) ELSE p[j] - t[j]
       IN d * d + RowCost(p, t, abs, j - 1)
Filled(T, k, m) == [i \in 1..k |-> IF i <= Len(T) THEN T[i] ELSE [j \in 1..m |-> 0]]
CostMatrix(P, T, m, abs) ==
  LET F == Filled(T, Len(P), m)
  IN [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> RowCost(P[j], F[i], abs, m)]]
RECURSIVE PermCost(_, _, _)
PermCost(C, perm, i) == IF i = 0 THEN 0 ELSE C[i][perm[i]] + PermCost(C, perm, i - 1)
Least(vals) == CHOOSE x \in vals : \A y \in vals : x <= y
\* the least costs of matching the last s of k rows with sets of s predicted rows
RECURSIVE Layer(_, _, _)
Layer(C, k, s) ==
  IF s = 0 THEN [S \in {{}} |-> 0]
  ELSE LET below == TLCEval(Layer(C, k, s - 1))
       IN [S \in kSubset(s, 1..k) |-> Least({C[k - s + 1][j] + below[S \ {j}] : j \in S})]
Best(C, k) == Layer(C, k, k)[1..k]
IsPerm(perm, k) == Len(perm) = k /\ {perm[i] : i \in DOMAIN perm} = 1..k
=============================================================================
