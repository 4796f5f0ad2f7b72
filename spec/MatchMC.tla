------------------------------- MODULE MatchMC ------------------------------
EXTENDS Match
CONSTANT K, M, VALS
VARIABLES P, T
Vals == {-1, 0, 2}
Init == P \in [1..K -> [1..M -> VALS]] /\ T \in UNION {[1..k -> [1..M -> VALS]] : k \in 0..K}
Next == UNCHANGED <<P, T>>
Spec == Init /\ [][Next]_<<P, T>>
Perms == {p \in [1..K -> 1..K] : IsPerm(p, K)}
ByAll(abs) == LET c == {PermCost(CostMatrix(P, T, M, abs), p, K) : p \in Perms}
              IN CHOOSE x \in c : \A y \in c : x <= y
RightBest == \A abs \in {TRUE, FALSE} : Best(CostMatrix(P, T, M, abs), K) = ByAll(abs)
AbsSmaller == ByAll(TRUE) <= ByAll(FALSE)
Vanish == (\E p \in Perms : \A i \in 1..K : P[p[i]] = Filled(T, K, M)[i]) <=> ByAll(FALSE) = 0
=============================================================================
