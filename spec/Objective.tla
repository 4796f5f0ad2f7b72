----------------------------- MODULE Objective ------------------------------
(* The objective of neural training (C23).  Numbers in 10^-4.  A pass: x,
   recon (rows), cov: exp of the log covariances, mu, lv (log variances), ev
   (their exponentials), of the encoded distributions.                      *)
EXTENDS Integers, Sequences, TLC
U == 10000
LOCAL AbsV(a) == IF a < 0 THEN -a ELSE a
Mul(a, b) == ((a \div 100) * b) \div 100 + ((a % 100) * b) \div U
RECURSIVE SumTo(_, _), ProdTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
ProdTo(f, i) == IF i = 0 THEN U ELSE Mul(f[i], ProdTo(f, i - 1))
\* variances: of a batch, averaged over its observations
Var(p, j) == SumTo([i \in DOMAIN p.x |-> p.cov[i][j]], Len(p.x)) \div Len(p.x)
Generalized(p, m) == ProdTo(TLCEval([j \in 1..m |-> Var(p, j)]), m)
\* a / b in U, a up to 2 * 10^9
Div(a, b) == (a \div b) * U + (IF b < 200000 THEN ((a % b) * U) \div b ELSE (((a % b) * 100) \div b) * 100)
Weighted(p, i, m) ==
  SumTo([j \in 1..m |-> LET d == AbsV(p.x[i][j] - p.recon[i][j]) IN Div(Mul(d, d), Var(p, j))], m)
\* twice the reconstruction term
Recon2(p, m) ==
  SumTo(TLCEval([i \in DOMAIN p.x |-> Generalized(p, m) + Weighted(p, i, m)]), Len(p.x))
\* twice the divergence
KL2(p) ==
  SumTo(TLCEval([i \in DOMAIN p.mu |->
    SumTo([k \in DOMAIN p.mu[i] |-> Mul(p.mu[i][k], p.mu[i][k]) + p.ev[i][k] - U - p.lv[i][k]], Len(p.mu[i]))]),
    Len(p.mu))
\* absolute sum, and the square of the nuclear norm (2 x 2, or one row)
AbsSum(W) == SumTo([i \in DOMAIN W |-> SumTo([j \in DOMAIN W[i] |-> AbsV(W[i][j])], Len(W[i]))], Len(W))
SqSum(W) == SumTo([i \in DOMAIN W |-> SumTo([j \in DOMAIN W[i] |-> Mul(W[i][j], W[i][j])], Len(W[i]))], Len(W))
\* square roots, in U, of numbers in U
RECURSIVE Newton(_, _, _)
Newton(v, y, k) == IF k = 0 THEN y ELSE Newton(v, TLCEval((y + Div(v, y)) \div 2 + 1), k - 1)
Sqrt(v) == IF v <= 0 THEN 0 ELSE Newton(v, (IF v < U THEN U ELSE IF v < 1000000 THEN 10 * U ELSE 100 * U), 24)
\* the root of a^2 + b^2
Hyp(a, b) == LET hi == IF a > b THEN a ELSE b
                 lo == IF a > b THEN b ELSE a
                 q == IF hi = 0 THEN 0 ELSE IF hi < 20000000 THEN Div(lo, hi) ELSE Div(lo \div 100, hi \div 100)
                 s == Sqrt(U + Mul(q, q))
             IN (hi \div U) * s + ((hi % U) * s) \div U
\* products of the residuals of variables i and j, and the spectral norm of
\* the residuals (of up to two variables) of a pass
Gram(p, i, j) == SumTo([r \in DOMAIN p.x |-> Mul(p.x[r][i] - p.recon[r][i], p.x[r][j] - p.recon[r][j])], Len(p.x))
Spectral(p, m) ==
  IF m = 1 THEN Sqrt(Gram(p, 1, 1))
  ELSE LET a == TLCEval(Gram(p, 1, 1))
           b == TLCEval(Gram(p, 2, 2))
           c == TLCEval(Gram(p, 1, 2))
       IN Sqrt((a + b + Hyp(AbsV(a - b), 2 * AbsV(c))) \div 2)
Frobenius(p, m) == Sqrt(SumTo([j \in 1..m |-> Gram(p, j, j)], m))
NucSq(W) == SqSum(W) + (IF Len(W) = 2 /\ Len(W[1]) = 2
  THEN 2 * AbsV(Mul(W[1][1], W[2][2]) - Mul(W[1][2], W[2][1])) ELSE 0)
=============================================================================
