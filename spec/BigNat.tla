------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): little-endian
   sequences of limbs below BASE, without leading zeros.                    *)
EXTENDS Integers, Sequences
BASE == 10000

RECURSIVE BigNorm(_)
BigNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BigNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o Big(n \div BASE)

At0(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == At0(a, i) + At0(b, i) + carry
       IN <<s % BASE>> \o AddFrom(a, b, i + 1, s \div BASE)
BigAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - At0(b, i) - borrow
       IN IF s < 0 THEN <<s + BASE>> \o SubFrom(a, b, i + 1, 1)
          ELSE <<s>> \o SubFrom(a, b, i + 1, 0)
\* a - b for a >= b
BigSub(a, b) == BigNorm(SubFrom(a, b, 1, 0))

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, x, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == a[i] * x + carry
       IN <<s % BASE>> \o MulLimb(a, x, i + 1, s \div BASE)

RECURSIVE MulAcc(_, _, _)
MulAcc(a, b, i) ==
  IF i = 0 THEN <<>>
  ELSE LET rest == MulAcc(a, b, i - 1)
           part == MulLimb(a, b[i], 1, 0)
           shifted == IF part = <<>> THEN <<>> ELSE [j \in 1..(i - 1) |-> 0] \o part
       IN BigAdd(rest, shifted)
BigMul(a, b) == BigNorm(MulAcc(a, b, Len(b)))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE CmpFrom(a, b, i - 1)
BigCmp(x, y) ==
  LET a == BigNorm(x)
      b == BigNorm(y)
  IN IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
BigLE(a, b) == BigCmp(a, b) <= 0
BigLT(a, b) == BigCmp(a, b) < 0
BigDiff(a, b) == IF BigLE(a, b) THEN BigSub(BigNorm(b), BigNorm(a)) ELSE BigSub(BigNorm(a), BigNorm(b))
RECURSIVE BigPow(_, _)
BigPow(a, n) == IF n = 0 THEN <<1>>
  ELSE LET h == BigPow(a, n \div 2)
           s == BigMul(h, h)
       IN IF n % 2 = 0 THEN s ELSE BigMul(s, a)
=============================================================================
