-------------------------------- MODULE XiMC --------------------------------
EXTENDS Xi, TLC
CONSTANT N, TOP
VARIABLES x, y
Init == x \in [1..N -> 1..TOP] /\ y \in [1..N -> 1..TOP]
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Distinct(f) == \A i, j \in DOMAIN f : i # j => f[i] # f[j]
RanksAddUp == SumTo(Ranks2(y), N) = N * (N + 1)
ReverseRanks == \A i \in 1..N : Rank2(y, i) + RevRank2(y, i) = 2 * N + 2
\* without ties, D is n (n^2 - 1) * 2 / 3, and xi the well-known formula
NoTies == Distinct(y) => 3 * D(y) = 2 * N * (N * N - 1)
Positive == N > 1 => D(y) > 0
NotAbove1 == Delta(x, y) >= 0
Monotone == Delta(x, [i \in 1..N |-> 10 * y[i] - 3]) = Delta(x, y)
Constant == (\A i \in 1..N : y[i] = y[1]) <=> V(y) = 0
VarianceNonneg == V(y) >= 0
\* the shorter ways of many observations
Values == {y[i] : i \in 1..N}
InOrder == Ordered(x, y)
Index(v) == Card({u \in Values : u <= v})
Counts == [k \in 1..Card(Values) |-> Card({i \in 1..N : Index(y[i]) = k})]
Follows == [i \in 1..(N - 1) |-> <<Index(InOrder[i]), Index(InOrder[i + 1]), 1>>]
GroupedRight == LET g == Grouped(Counts, Follows) IN
  g.n = N /\ g.delta = Big(Delta(x, y)) /\ g.d = Big(D(y)) /\ g.v = Big(V(y))
PermutedRight == Distinct(y) => LET p == Permuted([i \in 1..N |-> Index(InOrder[i])]) IN
  p.n = N /\ p.delta = Big(15 * Delta(x, y)) /\ p.d = Big(15 * D(y)) /\ p.v = Big(225 * V(y))
=============================================================================
