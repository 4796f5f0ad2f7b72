-------------------------------- MODULE Dcor --------------------------------
(* The bias-corrected distance correlation (C27) of integer samples, exactly.
   With a, b the distance matrices, the inner product of the U-centered ones,
   multiplied by (n - 1) (n - 2), is
   (n - 1) (n - 2) sum ab - 2 (n - 1) sum_k a_k. b_k. + (sum a) (sum b).    *)
EXTENDS Dcov, BigNat
UProd(x, y) ==
  LET n == Len(x)
      rx == RowSums(x)
      ry == RowSums(y)
      prod == Sum(TLCEval([i \in 1..n |-> Sum(TLCEval([j \in 1..n |-> DistOf(x, i, j) * DistOf(y, i, j)]), n)]), n)
      cross == Sum(TLCEval([i \in 1..n |-> rx[i] * ry[i]]), n)
  IN (n - 1) * (n - 2) * prod - 2 * (n - 1) * cross + Sum(rx, n) * Sum(ry, n)

\* by definition, each centered distance multiplied by (n - 1) (n - 2)
UCentered(x, i, j) ==
  LET n == Len(x)
      r == RowSums(x)
  IN IF i = j THEN 0 ELSE (n - 1) * (n - 2) * DistOf(x, i, j) - (n - 1) * (r[i] + r[j]) + Sum(r, n)
UDef(x, y) ==
  LET n == Len(x)
  IN Sum([i \in 1..n |-> Sum([j \in 1..n |-> UCentered(x, i, j) * UCentered(y, i, j)], n)], n)

\* R = s / sqrt(vx vy), t = sqrt(df) R / sqrt(1 - R^2) = sqrt(df) s / sqrt(den)
Df(n) == (n * (n - 3)) \div 2 - 1
LOCAL AbsV(a) == IF a < 0 THEN -a ELSE a
Square(a) == BigMul(Big(AbsV(a)), Big(AbsV(a)))
Den(s, vx, vy) == BigDiff(BigMul(Big(vx), Big(vy)), Square(s))
\* q / 10^4 <= t
AtLeast(s, den, df, q) ==
  LET l == BigMul(Square(q), den)
      r == BigMul(BigMul(Square(10000), Big(df)), Square(s))
  IN IF q <= 0 THEN s >= 0 \/ BigLE(r, l) ELSE s > 0 /\ BigLE(l, r)
AtMost(s, den, df, q) == AtLeast(-s, den, df, -q)
=============================================================================
