----------------------------- MODULE DcovTrace ------------------------------
(* C13: recorded distance covariances, and decisions of the fast test.
   cols: the columns (integers), every observation was given `copies` times,
   which changes nothing but the size of the sample; cov: n^4 times the covariances, bars: n^2
   times the mean distances, both rounded (ev.whole: they were integers up to
   rounding); tests: [num, lo, hi of the quantile in millionths, udg]       *)
EXTENDS Dcov, BigNat, TraceLib
VARIABLES l, bad

Fails(ev) ==
  IF ev.exc # "" THEN {ev.op \o " raised " \o ev.exc} ELSE
  LET m == Len(ev.cols)
      n == Len(ev.cols[1])
      C == [i \in 1..m |-> [j \in 1..m |-> IF i <= j THEN DcovN4(ev.cols[i], ev.cols[j]) ELSE 0]]
      cov(i, j) == IF i <= j THEN C[i][j] ELSE C[j][i]
      tot == [i \in 1..m |-> Total(ev.cols[i])]
      \* n cov / (bar bar) >= q   <=>   10^6 n (n^4 cov) >= (10^6 q) tot tot
      lhs(i, j) == BigMul(Big(cov(i, j)), BigMul(Big(n * ev.copies), Big(1000000)))
      rhs(i, j, q) == BigMul(Big(q), BigMul(Big(tot[i]), Big(tot[j])))
      Dep(t, i, j) == BigLE(rhs(i, j, t.hi), lhs(i, j))
      Indep(t, i, j) == BigLT(lhs(i, j), rhs(i, j, t.lo))
  IN UNION {
    Clause("sample left unchanged", ev.unchanged),
    Clause("matrix of the size of the sample", ev.shape),
    IF ~ev.shape THEN {} ELSE UNION {
      Clause("mean distances", \A i \in 1..m : ev.bars[i] = tot[i]),
      Clause("mean product of doubly centered distances",
             ev.whole /\ \A i, j \in 1..m : ev.cov[i][j] = cov(i, j)) },
    UNION { LET t == ev.tests[x] IN UNION {
      Clause("fast test raised " \o t.exc, t.exc = ""),
      IF t.exc # "" THEN {} ELSE UNION {
        Clause("dependence matrix is symmetric with a false diagonal",
               \A i, j \in 1..m : t.udg[i][j] = t.udg[j][i] /\ t.udg[i][i] = 0),
        Clause("dependent if and only if the statistic reaches the quantile",
               \A i, j \in 1..m : i < j =>
                 /\ Dep(t, i, j) => t.udg[i][j] = 1
                 /\ Indep(t, i, j) => t.udg[i][j] = 0) } } : x \in DOMAIN ev.tests } }

Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
