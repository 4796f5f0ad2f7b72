----------------------------- MODULE DcorTrace ------------------------------
(* C27: recorded p-values of the distance correlation test.  cols: columns of
   integers; tests: i, j, lo, hi, inf: from the p-value, the statistic is
   within [lo, hi] ten-thousandths (inf: it is not bounded above; ninf: nor
   below), see the driver.                                                  *)
EXTENDS Dcor, TraceLib
VARIABLES l, bad
Right(s, vx, vy, n, t) ==
  LET den == Den(s, vx, vy)
  IN /\ t.ninf \/ AtLeast(s, den, Df(n), t.lo)
     /\ t.inf \/ AtMost(s, den, Df(n), t.hi)
Fails(ev) ==
  IF ev.exc # "" THEN {"estimate raised " \o ev.exc} ELSE
  LET m == Len(ev.cols)
      n == Len(ev.cols[1])
      U == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |-> IF i <= j THEN UProd(ev.cols[i], ev.cols[j]) ELSE 0])])
  IN UNION {
    Clause("sample left unchanged", ev.unchanged),
    Clause("p-values of all pairs", ev.shape),
    IF ~ev.shape THEN {} ELSE UNION {
      Clause("p-values are probabilities", \A t \in Range(ev.tests) : t.prob \/ U[t.i][t.i] = 0 \/ U[t.j][t.j] = 0),
      Clause("p-value is the t-test's of the bias-corrected distance correlation",
        \A t \in Range(ev.tests) :
          \/ U[t.i][t.i] = 0 \/ U[t.j][t.j] = 0   \* not defined
          \/ ~t.prob
          \/ Right(U[t.i][t.j], U[t.i][t.i], U[t.j][t.j], n, t)) } }
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
