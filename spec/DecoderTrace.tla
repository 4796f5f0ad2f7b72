---------------------------- MODULE DecoderTrace ----------------------------
(* C19: recorded networks.
   "net": for a network with m measurements and L latents, infl: for each set
   of measurements that is what some weights of the decoder influence, that
   set; mean, var: for each measurement the latents its mean and variance
   depend on; tensors: of all tensors with weights that influence an output,
   whether they are registered, optimized and were changed by training;
   frozen: numbers of influential weights that training left as they were.
   "eval": digests of repeated evaluations.  "latent": statistics of
   standardized latents of n equal rows (fixed point 10^4).                  *)
EXTENDS TraceLib
VARIABLES l, bad
vars == <<l, bad>>
NetFails(ev) == UNION {
  Clause("training succeeds", ev.exc = ""),
  Clause("a weight influences at most one measurement",
         \A i \in DOMAIN ev.infl : Cardinality(Range(ev.infl[i])) <= 1),
  Clause("some weights influence every measurement",
         \A j \in 1..ev.m : \E i \in DOMAIN ev.infl : Range(ev.infl[i]) = {j}),
  Clause("the mean of every measurement depends on every latent",
         \A j \in 1..ev.m : Range(ev.mean[j]) = 1..ev.L),
  Clause("the variance of every measurement depends on every latent",
         \A j \in 1..ev.m : Range(ev.var[j]) = 1..ev.L),
  Clause("influential weights are parameters of the network",
         \A i \in DOMAIN ev.tensors : ev.tensors[i].registered),
  Clause("influential weights are optimized", \A i \in DOMAIN ev.tensors : ev.tensors[i].optimized),
  Clause("influential weights are changed by training",
         ev.trained => (ev.frozen = 0 /\ \A i \in DOMAIN ev.tensors : ev.tensors[i].changed)) }
EvalFails(ev) == Clause("deterministic in evaluation", Cardinality(Range(ev.outs)) = 1)
\* six standard errors; all deviations are in units of 10^-4
T == 10000
RECURSIVE Sqrt(_, _)
Sqrt(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Sqrt(n, h)
Root(n) == Sqrt(n, n)
\* 6 / sqrt(n), in units
Bound(n) == (60000 \div Root(n)) + 30
LatentFails(ev) ==
  LET b == Bound(ev.n) IN UNION {
  Clause("training latents have the encoded mean", \A i \in DOMAIN ev.mean : Abs(ev.mean[i]) <= b),
  Clause("training latents have the encoded variance",
         \A i \in DOMAIN ev.var : Abs(ev.var[i] - T) <= (3 * b) \div 2),
  Clause("training latents are normal",
         \A i \in DOMAIN ev.below : \A q \in 1..5 :
           Abs(ev.below[i][q] - <<228, 1587, 5000, 8413, 9772>>[q]) <= (b \div 2) + 1),
  Clause("latents are drawn separately", \A i \in DOMAIN ev.corr : Abs(ev.corr[i]) <= b),
  Clause("rows are drawn separately", \A i \in DOMAIN ev.lag : Abs(ev.lag[i]) <= b),
  Clause("no draw repeats another", ev.distinct = ev.n),
  Clause("draws differ", ~ev.again) }
Fails(ev) == CASE ev.e = "net" -> NetFails(ev)
               [] ev.e = "eval" -> EvalFails(ev)
               [] ev.e = "latent" -> LatentFails(ev)
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
