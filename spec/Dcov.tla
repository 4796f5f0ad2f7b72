-------------------------------- MODULE Dcov --------------------------------
(* Distance covariance (C13) of integer samples, exactly.  A column is a
   sequence of n integers.  With a, b the distance matrices,
   n^4 * dcov = n^2 * sum ab + (sum a)(sum b) - 2 n sum_k a_k. b_k.         *)
EXTENDS Integers, Sequences, TLC
LOCAL AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
DistOf(x, i, j) == AbsV(x[i] - x[j])
RowSums(x) == TLCEval([i \in DOMAIN x |-> Sum(TLCEval([j \in DOMAIN x |-> DistOf(x, i, j)]), Len(x))])
Total(x) == Sum(RowSums(x), Len(x))
DcovN4(x, y) ==
  LET n == Len(x)
      rx == RowSums(x)
      ry == RowSums(y)
      prod == Sum(TLCEval([i \in 1..n |-> Sum(TLCEval([j \in 1..n |-> DistOf(x, i, j) * DistOf(y, i, j)]), n)]), n)
      cross == Sum(TLCEval([i \in 1..n |-> rx[i] * ry[i]]), n)
  IN n * n * prod + Sum(rx, n) * Sum(ry, n) - 2 * n * cross

\* by definition: the mean product of the doubly centered distances, here
\* multiplied by n^2 each, so that this is n^6 * dcov
Centered(x, i, j) ==
  LET n == Len(x)
      r == RowSums(x)
  IN n * n * DistOf(x, i, j) - n * r[i] - n * r[j] + Sum(r, n)
DcovDefN6(x, y) ==
  LET n == Len(x)
  IN Sum([i \in 1..n |-> Sum([j \in 1..n |-> Centered(x, i, j) * Centered(y, i, j)], n)], n)
=============================================================================
