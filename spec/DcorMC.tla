------------------------------- MODULE DcorMC -------------------------------
(* Laws of the bias-corrected distance correlation, for all small samples.  *)
EXTENDS Dcor
CONSTANT N, TOP
VARIABLES x, y
Init == x \in [1..N -> 0..TOP] /\ y \in [1..N -> 0..TOP]
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
ByDefinition == UDef(x, y) = (N - 1) * (N - 2) * UProd(x, y)
Symmetric == UProd(x, y) = UProd(y, x)
Variance == UProd(x, x) >= 0
CauchySchwarz == UProd(x, y) * UProd(x, y) <= UProd(x, x) * UProd(y, y)
Units == UProd([i \in 1..N |-> 7 - 3 * x[i]], y) = 3 * UProd(x, y)
Order == LET p == [i \in 1..N |-> (i % N) + 1]
         IN UProd([i \in 1..N |-> x[p[i]]], [i \in 1..N |-> y[p[i]]]) = UProd(x, y)
\* comparisons with the statistic: of one that is known
Known == LET s == UProd(x, y)
             den == Den(s, UProd(x, x), UProd(y, y))
         IN /\ AtLeast(s, den, Df(N), 0) <=> s >= 0
            /\ AtMost(s, den, Df(N), 0) <=> s <= 0
            /\ \A q \in {-20000, -1, 1, 9000} :
                 den # <<>> => (AtLeast(s, den, Df(N), q) \/ AtMost(s, den, Df(N), q))
=============================================================================
