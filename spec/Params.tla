------------------------------- MODULE Params -------------------------------
(* C07: parameters of a random Gaussian model, in millionths, for a structure
   given by the parents of each measurement.                                *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL AbsV(x) == IF x < 0 THEN -x ELSE x
Unit == 1000000
InMagnitude(x) == 2 * AbsV(x) >= Unit /\ AbsV(x) <= 2 * Unit
WeightsFit(W, edges) ==   \* edges: set of <<latent, measurement>>
  \A i \in DOMAIN W : \A j \in DOMAIN W[i] :
    IF <<i, j>> \in edges THEN InMagnitude(W[i][j]) ELSE W[i][j] = 0
VariancesFit(d, m) == Len(d) = m /\ \A j \in DOMAIN d : 2 * d[j] >= Unit /\ d[j] <= 2 * Unit
MeansFit(mu, m) == Len(mu) = m /\ \A j \in DOMAIN mu : AbsV(mu[j]) <= 2 * Unit
=============================================================================
