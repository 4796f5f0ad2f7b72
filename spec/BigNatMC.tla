------------------------------ MODULE BigNatMC ------------------------------
(* BigNat against TLC's integers                                            *)
EXTENDS BigNat, TLC
VARIABLES x, y
S == {0, 1, 2, 9, 99, 9999, 10000, 10001, 19999, 25000, 40000, 46340}
Init == x \in S /\ y \in S
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE Head(a) + BASE * Val(Tail(a))
Right ==
  /\ Val(Big(x)) = x
  /\ Val(BigAdd(Big(x), Big(y))) = x + y
  /\ Val(BigMul(Big(x), Big(y))) = x * y
  /\ (BigCmp(Big(x), Big(y)) < 0) = (x < y)
  /\ (BigCmp(Big(x), Big(y)) = 0) = (x = y)
  /\ Val(BigDiff(Big(x), Big(y))) = IF x < y THEN y - x ELSE x - y
  /\ BigCmp(BigMul(BigAdd(Big(x), Big(y)), BigAdd(Big(x), Big(y))),
            BigAdd(BigAdd(BigPow(Big(x), 2), BigPow(Big(y), 2)),
                   BigMul(Big(2), BigMul(Big(x), Big(y))))) = 0
  /\ BigCmp(BigPow(Big(x), 5), BigMul(BigPow(Big(x), 2), BigPow(Big(x), 3))) = 0
=============================================================================
