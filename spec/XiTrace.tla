------------------------------ MODULE XiTrace -------------------------------
(* C14: recorded xi correlations.  x, y: integers in the order of the samples;
   xi: the correlation in millionths; z: the normal quantile of the p-value in
   ten-thousandths (zneg: its sign), or far: the p-value is (nearly) 0 or 1.
   grouped and permuted lines have summaries instead of x and y, see Xi     *)
EXTENDS Xi, TraceLib
VARIABLES l, bad

S == 1000000
XiRight(ev, delta) ==
  \* |(S - xi) D - S n Delta| <= 3 D, with S - xi >= 0
  LET n == Len(ev.x)
      d == Big(D(ev.y))
  IN /\ ev.xi <= S + 1
     /\ BigLE(BigDiff(BigMul(Big(IF ev.xi > S THEN 0 ELSE S - ev.xi), d),
                      BigMul(Big(S), BigMul(Big(n), Big(delta)))),
              BigMul(Big(3), d))

\* z^2 * var = n xi^2: with ties 4 V z^2 = n (D - n Delta)^2, without
\* 2 D^2 z^2 = 5 n (D - n Delta)^2
PRight(ev) ==
  LET n == Len(ev.x)
      d == D(ev.y)
      num == d - n * Delta(ev.x, ev.y)
      v == V(ev.y)
      num2 == BigMul(Big(Abs(num)), Big(Abs(num)))
      k == IF ev.ties THEN BigMul(Big(4), Big(v)) ELSE BigMul(Big(2), BigMul(Big(d), Big(d)))
      r == IF ev.ties THEN BigMul(Big(n), num2) ELSE BigMul(Big(5 * n), num2)
      z == Big(ev.z)
  IN IF ev.ties /\ v = 0 THEN TRUE   \* y is constant: not defined
     ELSE IF ev.far THEN BigLE(BigMul(Big(25), k), r) /\ (ev.zneg <=> num < 0)
     ELSE /\ BigLE(BigDiff(BigMul(BigMul(z, z), k), BigMul(BigPow(Big(10000), 2), r)),
                   BigMul(Big(3 * ev.z + 3), k))
          /\ ev.z > 5 => (ev.zneg <=> num < 0)

\* the same from the summaries of many observations
ManyXi(ev, g) ==
  /\ ev.xi <= S + 1
  /\ BigLE(BigDiff(BigMul(Big(IF ev.xi > S THEN 0 ELSE S - ev.xi), g.d),
                   BigMul(Big(S), BigMul(Big(g.n), g.delta))),
           BigMul(Big(3), g.d))
ManyP(ev, g) ==
  LET nd == BigMul(Big(g.n), g.delta)
      neg == BigLT(g.d, nd)
      num2 == Sq(BigDiff(g.d, nd))
      k == IF ev.ties THEN BigMul(Big(4), g.v) ELSE BigMul(Big(2), Sq(g.d))
      r == BigMul(Big(IF ev.ties THEN g.n ELSE 5 * g.n), num2)
      z == Big(ev.z)
  IN IF ev.far THEN BigLE(BigMul(Big(25), k), r) /\ (ev.zneg <=> neg)
     ELSE /\ BigLE(BigDiff(BigMul(Sq(z), k), BigMul(BigPow(Big(10000), 2), r)),
                   BigMul(Big(3 * ev.z + 3), k))
          /\ ev.z > 5 => (ev.zneg <=> neg)
Many(ev, g) == UNION {
  Clause("samples left unchanged", ev.unchanged),
  Clause("xi is a number", ~ev.nan),
  IF ev.nan THEN {} ELSE UNION {
    Clause("xi correlation", ManyXi(ev, g)),
    IF ManyXi(ev, g) THEN Clause("p-value", ManyP(ev, g)) ELSE {} } }

Fails(ev) ==
  CASE ev.op = "unequal" -> Clause("samples of different lengths are a ValueError", ev.exc = "ValueError")
    [] ev.op = "empty" -> Clause("empty samples give NaN", ev.exc = "" /\ ev.nan)
    [] ev.op \in {"grouped", "permuted"} ->
         IF ev.exc # "" THEN {"xi correlation raised " \o ev.exc}
         ELSE IF ev.op = "grouped" THEN Many(ev, Grouped(ev.cnt, ev.trans))
         ELSE IF ~IsPermutation(ev.y) THEN {"permutation (harness)"}
         ELSE Many(ev, Permuted(ev.y))
    [] ev.op = "xi" ->
         IF ev.exc # "" THEN {"xi correlation raised " \o ev.exc} ELSE UNION {
           Clause("samples left unchanged", ev.unchanged),
           Clause("xi is a number", ~ev.nan),
           IF ev.nan THEN {} ELSE UNION {
             Clause("xi correlation", XiRight(ev, Delta(ev.x, ev.y))),
             IF XiRight(ev, Delta(ev.x, ev.y)) THEN Clause("p-value", PRight(ev)) ELSE {} } }
    \* with ties in x, the order of the tied observations is left open
    [] ev.op = "tied" ->
         IF ev.exc # "" THEN {"xi correlation raised " \o ev.exc} ELSE
         LET n == Len(ev.x)
             orders == {p \in [1..n -> 1..n] :
                          /\ \A i, j \in 1..n : i # j => p[i] # p[j]
                          /\ \A i \in 1..(n - 1) : ev.x[p[i]] <= ev.x[p[i + 1]]}
             r == Ranks2(ev.y)
             delta(p) == SumTo([i \in 1..(n - 1) |-> Abs(r[p[i + 1]] - r[p[i]])], n - 1)
         IN Clause("xi correlation for some order of tied observations",
                   ~ev.nan /\ \E p \in orders : XiRight(ev, delta(p)))

Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
