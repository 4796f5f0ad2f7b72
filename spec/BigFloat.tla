------------------------------ MODULE BigFloat ------------------------------
(* Bounds of products of large naturals: <<m, e>> stands for m * BASE^e with
   at most LIMBS limbs in m; what does not fit is cut off (a lower bound), or
   rounded up (an upper bound).                                             *)
EXTENDS BigNat
LIMBS == 8
Cut(m, e, up) ==
  IF Len(m) <= LIMBS THEN <<m, e>>
  ELSE LET d == Len(m) - LIMBS
           t == SubSeq(m, d + 1, Len(m))
       IN <<IF up /\ (\E i \in 1..d : m[i] # 0) THEN BigAdd(t, <<1>>) ELSE t, e + d>>
FMul(x, y, up) == Cut(BigMul(x[1], y[1]), x[2] + y[2], up)
RECURSIVE FPow(_, _, _)
FPow(x, n, up) == IF n = 0 THEN <<<<1>>, 0>>
  ELSE LET h == FPow(x, n \div 2, up)
           s == FMul(h, h, up)
       IN IF n % 2 = 0 THEN s ELSE FMul(s, x, up)
Zeros(k) == [i \in 1..k |-> 0]
FLT(x, y) ==
  IF x[1] = <<>> \/ y[1] = <<>> THEN x[1] = <<>> /\ y[1] # <<>>
  ELSE IF Len(x[1]) + x[2] # Len(y[1]) + y[2] THEN Len(x[1]) + x[2] < Len(y[1]) + y[2]
  ELSE IF x[2] >= y[2] THEN BigLT(Zeros(x[2] - y[2]) \o x[1], y[1])
  ELSE BigLT(x[1], Zeros(y[2] - x[2]) \o y[1])
F(m) == <<m, 0>>
=============================================================================
