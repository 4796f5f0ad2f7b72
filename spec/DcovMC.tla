------------------------------- MODULE DcovMC -------------------------------
EXTENDS Dcov, TLC
CONSTANT N, TOP
VARIABLES x, y
Init == x \in [1..N -> 0..TOP] /\ y \in [1..N -> 0..TOP]
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
ByDefinition == DcovDefN6(x, y) = N * N * DcovN4(x, y)
Symmetric == DcovN4(x, y) = DcovN4(y, x)
Nonneg == DcovN4(x, x) >= 0 /\ DcovN4(x, y) >= 0
Shifted == DcovN4([i \in 1..N |-> 7 - x[i]], y) = DcovN4(x, y)
Repeated == DcovN4(x \o x, y \o y) = 16 * DcovN4(x, y)
CauchySchwarz == DcovN4(x, y) * DcovN4(x, y) <= DcovN4(x, x) * DcovN4(y, y)
=============================================================================
