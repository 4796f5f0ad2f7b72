------------------------------- MODULE BicMC --------------------------------
EXTENDS Bic
CONSTANT N, TOP
VARIABLES x, y
Nonconstant == {f \in [1..N -> 0..TOP] : \E i \in 1..N : f[i] # f[1]}
Init == x \in Nonconstant /\ y \in Nonconstant
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Symmetric == Dependent(x, y) = Dependent(y, x)
UnitFree == Dependent([i \in 1..N |-> 5 - 3 * x[i]], [i \in 1..N |-> 2 * y[i] + 1]) = Dependent(x, y)
OrderFree == Dependent([i \in 1..N |-> x[N + 1 - i]], [i \in 1..N |-> y[N + 1 - i]]) = Dependent(x, y)
SelfDependent == Dependent(x, x)
UncorrelatedIndependent == Cov(x, y) = 0 => ~Dependent(x, y)
BoundsDecide == Decide(x, y, [i \in 1..N |-> 1]) = IF Dependent(x, y) THEN 1 ELSE 0
RepeatsDecide == Decide(x, y, [i \in 1..N |-> IF i = 1 THEN 3 ELSE 1])
  = IF Dependent(<<x[1], x[1]>> \o x, <<y[1], y[1]>> \o y) THEN 1 ELSE 0
=============================================================================
