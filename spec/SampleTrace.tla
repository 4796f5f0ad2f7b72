---------------------------- MODULE SampleTrace -----------------------------
(* C08: recorded samples of Gaussian models.
   "exact" lines: no error variances; w integers (weights in units of 1/4),
   rows of the sample minus the error means in units of 10^-6, relations v.
   "moments" lines: n = 40000 observations; w, d, mean in thousandths, and the
   moments found in thousandths: m1 (means minus the error means), m2 (about
   the error means), q: for every measurement, how many observations lie
   within 0.6745 resp. 1.96 standard deviations (by the model's diagonal,
   given as sd and checked here), lag: products of successive observations,
   which may come from any number of samples taken one after another,
   sq: for pairs without common parents, the mean of (x^2-v)(y^2-u)/(v u).
   "fresh" lines: of n observations, how many deviations from the error means
   are of different magnitudes, per measurement.                            *)
EXTENDS LinGauss, TraceLib
VARIABLES l, bad

Exact(ev) == UNION {
  Clause("relation of the weights (harness)", \A v \in Range(ev.v) : Annihilates(ev.w, v)),
  Clause("rows are linear images of latents without errors",
    \A v \in Range(ev.v) : \A r \in Range(ev.rows) : Abs(RowDot(r, v, Len(v))) <= 60) }

Sq(x) == x * x
CapAbs(x) == IF Abs(x) > 40000 THEN 40000 ELSE Abs(x)
\* within six standard errors (and rounding): dev^2 n <= 36 q, n = 40000,
\* dev and q in thousandths
Within(dev, q) ==
  LET e == IF CapAbs(dev) > 20 THEN CapAbs(dev) - 20 ELSE 0 IN Sq(e) <= 9 * (q \div 10 + 1)

C(ev, j, h) == Dot(ev.w, j, h, Len(ev.w)) \div 1000 + (IF j = h THEN ev.d[j] ELSE 0)
Moments(ev) ==
  LET M == 1..ev.m
      S == TLCEval([j \in M |-> TLCEval([h \in M |-> C(ev, j, h)])])
  IN UNION {
    Clause("means are the error means", \A j \in M : Within(ev.m1[j], S[j][j])),
    Clause("covariances of the linear model",
      \A j, h \in M : Within(ev.m2[j][h] - S[j][h],
                             (S[j][j] * S[h][h] + Sq(S[j][h])) \div 1000)),
    Clause("standard deviations (harness)",
      \A j \in M : Abs(Sq(ev.sd[j]) \div 1000 - S[j][j]) <= 2 + S[j][j] \div 100),
    \* fractions 0.5 and 0.95 of 40000: 6 standard deviations are 600, 262
    Clause("measurements are normal",
      \A j \in M : Abs(ev.q[j][1] - 20000) <= 640 /\ Abs(ev.q[j][2] - 38000) <= 300),
    Clause("observations are independent",
      \A j, h \in M : Within(ev.lag[j][h], (S[j][j] * S[h][h]) \div 1000)),
    \* the mean of (x^2-1)(y^2-1) has variance 4/n
    Clause("measurements without common latents are independent",
      \A x \in Range(ev.sq) : NoCommonParent(ev.w, x[1], x[2]) => Abs(x[3]) <= 90) }

\* 30000 doubles from a continuous distribution are all different
Fresh(ev) ==
  Clause("no observation repeats another",
    \A j \in DOMAIN ev.d :
      ev.count[j] = IF ev.d[j] = 0 /\ \A i \in DOMAIN ev.w : ev.w[i][j] = 0 THEN 1 ELSE ev.n)

Fails(ev) ==
  IF ev.exc # "" THEN {"sampling raised " \o ev.exc}
  ELSE IF ~ev.shape THEN {"a row per observation and a column per measurement"}
  ELSE IF ~ev.kept THEN {"sampling leaves the model unchanged"}
  ELSE CASE ev.e = "exact" -> Exact(ev) [] ev.e = "moments" -> Moments(ev) [] ev.e = "fresh" -> Fresh(ev) [] OTHER -> {}
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
