-------------------------------- MODULE Bic ---------------------------------
(* The BIC decision (C10) for integer samples, exactly: with r the sample
   correlation, 1 - r^2 = (sxx syy - sxy^2) / (sxx syy), and two measurements
   are dependent iff (1 - r^2)^n n < 1.                                     *)
EXTENDS Integers, Sequences, BigFloat, TLC
LOCAL AbsV(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
SumP(x, y) == SumF(TLCEval([i \in DOMAIN x |-> x[i] * y[i]]), Len(x))
\* n^2 times the covariance
Cov(x, y) == Len(x) * SumP(x, y) - SumF(x, Len(x)) * SumF(y, Len(y))
Dependent(x, y) ==
  LET n == Len(x)
      q == BigMul(Big(Cov(x, x)), Big(Cov(y, y)))
      c == Big(AbsV(Cov(x, y)))
      p == BigSub(q, BigMul(c, c))
  IN BigLT(BigMul(BigPow(p, n), Big(n)), BigPow(q, n))

\* the same for natural samples in which observation i is there w[i] times, by
\* bounds of the powers; 2: not decided by them
SumW(w, x, y) == SumF(TLCEval([i \in DOMAIN w |-> w[i] * x[i] * y[i]]), Len(w))
Decide(x, y, w) ==
  LET ones == [i \in DOMAIN w |-> 1]
      n == SumF(w, Len(w))
      cov(a, b) == BigDiff(BigMul(Big(n), Big(SumW(w, a, b))),
                           BigMul(Big(SumW(w, a, ones)), Big(SumW(w, b, ones))))
      q == BigMul(cov(x, x), cov(y, y))
      c == cov(x, y)
      p == BigSub(q, BigMul(c, c))
      left(up) == FMul(FPow(Cut(p, 0, up), n, up), F(Big(n)), up)
      right(up) == FPow(Cut(q, 0, up), n, up)
  IN IF FLT(left(TRUE), right(FALSE)) THEN 1
     ELSE IF ~FLT(left(FALSE), right(TRUE)) THEN 0
     ELSE 2
=============================================================================
