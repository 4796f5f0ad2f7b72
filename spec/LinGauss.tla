------------------------------ MODULE LinGauss ------------------------------
(* Linear Gaussian models (C08, C11): W[i][j] is the weight of latent i in
   measurement j, D[j] an error variance.                                   *)
EXTENDS Integers, Sequences
RECURSIVE Dot(_, _, _, _)
\* sum over latents of W[i][j] W[i][h]
Dot(W, j, h, i) == IF i = 0 THEN 0 ELSE W[i][j] * W[i][h] + Dot(W, j, h, i - 1)
CovOf(W, D, j, h) == Dot(W, j, h, Len(W)) + (IF j = h THEN D[j] ELSE 0)
NoCommonParent(W, j, h) == \A i \in DOMAIN W : W[i][j] = 0 \/ W[i][h] = 0
RECURSIVE Image(_, _, _, _)
Image(W, z, j, i) == IF i = 0 THEN 0 ELSE W[i][j] * z[i] + Image(W, z, j, i - 1)
\* a relation v with W v = 0: sum over measurements of W[i][j] v[j]
RECURSIVE RowDot(_, _, _)
RowDot(r, v, j) == IF j = 0 THEN 0 ELSE r[j] * v[j] + RowDot(r, v, j - 1)
Annihilates(W, v) == \A i \in DOMAIN W : RowDot(W[i], v, Len(v)) = 0
=============================================================================
