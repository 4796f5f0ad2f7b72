----------------------------- MODULE LinGaussMC -----------------------------
(* The laws of the linear model, with the normal variables replaced by signs
   (the same first and second moments), over all small weights: one state per
   weight matrix, and every outcome enumerated.                             *)
EXTENDS LinGauss, FiniteSets, TLC
CONSTANTS K, M, TOP
VARIABLE W
Lim == -TOP..TOP
Init == W \in [1..K -> [1..M -> Lim]]
Next == UNCHANGED W
Spec == Init /\ [][Next]_W
Signs == {-1, 1}
Outcomes == [1..K -> Signs] \X [1..M -> Signs]
S == [j \in 1..M |-> j]       \* standard deviations of the errors
X(o, j) == Image(W, o[1], j, K) + S[j] * o[2][j]
RECURSIVE SumOver(_, _)
SumOver(F, T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F[x] + SumOver(F, T \ {x})
Mean(F) == SumOver(F, Outcomes)
Count == Cardinality(Outcomes)
D == [j \in 1..M |-> S[j] * S[j]]
Covariance == \A j, h \in 1..M :
  Mean([o \in Outcomes |-> X(o, j) * X(o, h)]) = Count * CovOf(W, D, j, h)
Centered == \A j \in 1..M : Mean([o \in Outcomes |-> X(o, j)]) = 0
Independent == \A j, h \in 1..M : (j # h /\ NoCommonParent(W, j, h)) => CovOf(W, D, j, h) = 0
\* without errors, rows satisfy every relation that the weights satisfy
Linear == \A v \in [1..M -> -1..1] : Annihilates(W, v) =>
  \A z \in [1..K -> -2..2] : RowDot([j \in 1..M |-> Image(W, z, j, K)], v, M) = 0
=============================================================================
