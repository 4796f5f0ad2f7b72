---------------------------- MODULE ObjectiveMC -----------------------------
(* Laws of the objective's terms, on a grid.                                *)
EXTENDS Objective
CONSTANT TOP
VARIABLES a, b, c, d
vars == <<a, b, c, d>>
G == {-TOP, -7000, 0, 5000, TOP}
Init == a \in G /\ b \in G /\ c \in G /\ d \in G
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
LOCAL AbsV(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == AbsV(x - y) <= 8
W == <<<<a, b>>, <<c, d>>>>
\* the nuclear norm is at least the Frobenius norm, at most the absolute sum,
\* and does not depend on transposing or reordering
NucBounds == SqSum(W) <= NucSq(W) /\ NucSq(W) <= Mul(AbsSum(W), AbsSum(W)) + 8
NucSymmetric == Near(NucSq(W), NucSq(<<<<a, c>>, <<b, d>>>>)) /\ Near(NucSq(W), NucSq(<<<<c, d>>, <<a, b>>>>))
P(x, y) == [x |-> <<<<a, b>>, <<c, d>>>>, recon |-> <<<<x, b>>, <<c, y>>>>,
            cov |-> <<<<U, 2 * U>>, <<U, 4 * U>>>>, mu |-> <<<<a, b>>>>, lv |-> <<<<0, 0>>>>, ev |-> <<<<U, U>>>>]
\* perfect reconstruction leaves the generalized variance of each observation
PerfectRecon == Recon2(P(a, d), 2) = 2 * 3 * U
ReconGrows == Recon2(P(0, d), 2) >= Recon2(P(a, d), 2)
\* roots, and the spectral norm: between the parts' and the whole
RootRight == \A v \in {AbsV(a), AbsV(a) + AbsV(c), Mul(a, a) + Mul(c, c) + 3} :
  LET r == Sqrt(v) IN Near(Mul(r, r), v) \/ AbsV(Mul(r, r) - v) * 1000 <= v
Close5(x, y) == AbsV(x - y) <= 20 + AbsV(y) \div 500
SpectralBounds == LET p == P(0, 0) IN
  /\ Spectral(p, 2) <= Frobenius(p, 2) + 20
  /\ \A j \in 1..2 : Mul(Spectral(p, 2), Spectral(p, 2)) + 40 >= Gram(p, j, j)
  /\ Gram(p, 1, 2) = 0 \/ Spectral(p, 2) <= Frobenius(p, 2)
  /\ Close5(Spectral([x |-> <<<<a, b>>, <<c, d>>>>, recon |-> <<<<0, 0>>, <<0, 0>>>>], 2),
            Spectral([x |-> <<<<a, c>>, <<b, d>>>>, recon |-> <<<<0, 0>>, <<0, 0>>>>], 2))
KLZero == (a = 0 /\ b = 0) <=> KL2(P(0, 0)) = 0
=============================================================================
