--------------------------------- MODULE Xi ---------------------------------
(* The xi correlation (C14), from samples of integers x and y, exactly.
   Ranks are doubled, so that averages of ties are integers.               *)
EXTENDS Integers, Sequences, FiniteSets, BigNat, TLC
LOCAL AbsV(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Card(S) == Cardinality(S)

\* twice the (average) rank: smaller ones count 2, equal ones 1, and 1
Rank2(y, i) == 2 * Card({j \in DOMAIN y : y[j] < y[i]}) + Card({j \in DOMAIN y : y[j] = y[i]}) + 1
RevRank2(y, i) == 2 * Card({j \in DOMAIN y : y[j] > y[i]}) + Card({j \in DOMAIN y : y[j] = y[i]}) + 1
Ranks2(y) == TLCEval([i \in DOMAIN y |-> Rank2(y, i)])
\* position of every observation in the order of x, ties in order of appearance
Place(x, i) == 1 + Card({j \in DOMAIN x : x[j] < x[i] \/ (x[j] = x[i] /\ j < i)})
Ordered(x, f) == TLCEval([p \in DOMAIN x |-> f[CHOOSE i \in DOMAIN x : Place(x, i) = p]])

\* xi = 1 - n * Delta / D
Delta(x, y) ==
  LET r == Ordered(x, Ranks2(y)) IN
  SumTo(TLCEval([i \in 1..(Len(x) - 1) |-> AbsV(r[i + 1] - r[i])]), Len(x) - 1)
D(y) == LET n == Len(y) IN
  SumTo(TLCEval([i \in DOMAIN y |-> RevRank2(y, i) * (2 * n - RevRank2(y, i))]), n)

\* with correction for ties: variance = 4 * V / D^2; without, 2/5
Sorted(f) == TLCEval([p \in DOMAIN f |-> f[CHOOSE i \in DOMAIN f : Place(f, i) = p]])
V(y) ==
  LET n == Len(y)
      q == Sorted(Ranks2(y))
      w == [i \in 1..n |-> 2 * n - 2 * i + 1]
      A == SumTo(TLCEval([i \in 1..n |-> w[i] * q[i] * q[i]]), n)
      C == SumTo(TLCEval([i \in 1..n |-> w[i] * q[i]]), n)
      M == TLCEval([i \in 1..n |-> SumTo(q, i) + (n - i) * q[i]])
      B == SumTo(TLCEval([i \in 1..n |-> M[i] * M[i]]), n)
  IN A * n * n - 2 * B * n + C * C       \* for n <= 20 within 32 bits, see XiMC

\* The same for many observations: cnt[v] of them have the v-th value of y,
\* and trans = <<<<u, v, k>>...>>: in the order of x, the v-th value follows
\* the u-th k times.
RECURSIVE BigSumTo(_, _)
BigSumTo(f, i) == IF i = 0 THEN <<>> ELSE BigAdd(f[i], BigSumTo(f, i - 1))
BigTotal(f) == BigSumTo(TLCEval(f), Len(f))
Upto(cnt) == TLCEval([v \in DOMAIN cnt |-> SumTo(cnt, v)])
Sq(a) == BigMul(a, a)
Grouped(cnt, trans) ==
  LET t == Len(cnt)
      c == Upto(cnt)
      n == c[t]
      q == TLCEval([v \in 1..t |-> 2 * (c[v] - cnt[v]) + cnt[v] + 1])
      l == TLCEval([v \in 1..t |-> 2 * (n - c[v]) + cnt[v] + 1])
      \* over a group, the sum of 2 n - 2 i + 1
      w == TLCEval([v \in 1..t |-> BigMul(Big(cnt[v]), Big(2 * (n - c[v]) + cnt[v]))])
      below == TLCEval([v \in 1..t |-> BigTotal([u \in 1..(v - 1) |-> BigMul(Big(cnt[u]), Big(q[u]))])])
      m == TLCEval([v \in 1..t |-> BigAdd(below[v], BigMul(Big(n - c[v] + cnt[v]), Big(q[v])))])
      a == BigTotal([v \in 1..t |-> BigMul(w[v], Sq(Big(q[v])))])
      ci == BigTotal([v \in 1..t |-> BigMul(w[v], Big(q[v]))])
      b == BigTotal([v \in 1..t |-> BigMul(Big(cnt[v]), Sq(m[v]))])
  IN [n |-> n,
      delta |-> BigTotal([i \in DOMAIN trans |->
                  BigMul(Big(trans[i][3]), Big(AbsV(q[trans[i][2]] - q[trans[i][1]])))]),
      d |-> BigTotal([v \in 1..t |-> BigMul(Big(cnt[v]), BigMul(Big(l[v]), Big(2 * n - l[v])))]),
      v |-> BigDiff(BigAdd(BigMul(a, Sq(Big(n))), Sq(ci)), BigMul(Big(2 * n), b))]
\* and for distinct values, y given as a permutation in the order of x (15
\* times delta and d, 15^2 times v)
RECURSIVE SumSteps(_, _, _)
SumSteps(y, i, j) ==   \* sum of |y[h + 1] - y[h]|, h in i..(j - 1)
  IF j - i < 1 THEN <<>>
  ELSE IF j - i = 1 THEN Big(AbsV(y[j] - y[i]))
  ELSE LET h == (i + j) \div 2 IN BigAdd(SumSteps(y, i, h), SumSteps(y, h, j))
IsPermutation(y) == {y[i] : i \in DOMAIN y} = DOMAIN y
Permuted(y) ==
  LET n == Len(y)
      N == Big(n)
      n2 == Sq(N)
      m == BigSub(n2, Big(1))
  IN [n |-> n, delta |-> BigMul(Big(30), SumSteps(y, 1, n)),
      d |-> BigMul(Big(10), BigMul(N, m)),
      v |-> BigMul(Big(5), BigMul(n2, BigMul(m, BigAdd(BigAdd(n2, n2), Big(7)))))]
=============================================================================
