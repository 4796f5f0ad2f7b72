------------------------------ MODULE PenTrace ------------------------------
(* C20: recorded histories of penalized models.  After every operation the
   driver samples every model by every method with the same generator, and
   records the digest or the exception (probe[o][method]).
   "loss" lines: validation losses in 10^-4 for given estimates; unit: w and
   data in 1 / unit, d (diagonal) in 1 / unit^2.                            *)
EXTENDS Integers, Sequences, TraceLib
VARIABLES l, bad, est, memo
vars == <<l, bad, est, memo>>
Methods == {"mle", "lse"}
OBJ == {"1", "2"}
None == [mle |-> "", lse |-> "", last |-> ""]
Start == [o \in OBJ |-> None]

Expected(e, method) ==
  IF method \notin Methods THEN "ValueError" ELSE IF e[method] = "" THEN "ValueError" ELSE e[method]

\* every model samples as after its most recent fits
ProbeFails(ev, e) ==
  Clause("sampling is with the estimates of the most recent fit by the method",
    \A o \in OBJ : \A k \in Methods : ev.probe[o][k] = Expected(e[o], k))

Sq(x) == x * x
CapAbs(x) == IF Abs(x) > 40000 THEN 40000 ELSE Abs(x)
Within(dev, q) ==
  LET e == IF CapAbs(dev) > 20 THEN CapAbs(dev) - 20 ELSE 0 IN Sq(e) <= 9 * (q \div 10 + 1)
RECURSIVE Dot(_, _, _, _)
Dot(W, j, h, i) == IF i = 0 THEN 0 ELSE (W[i][j] * W[i][h]) \div 1000 + Dot(W, j, h, i - 1)
Moments(ev) ==
  LET M == 1..ev.m
      S == TLCEval([j \in M |-> TLCEval([h \in M |->
             Dot(ev.w, j, h, Len(ev.w)) + (IF j = h THEN ev.d[j] ELSE 0)])])
  IN UNION {
    Clause("samples are centered", \A j \in M : Within(ev.m1[j], S[j][j])),
    Clause("samples have the covariance of the estimates",
      \A j, h \in M : Within(ev.m2[j][h] - S[j][h], (S[j][j] * S[h][h] + Sq(S[j][h])) \div 1000)) }

Latents(onepc, m) == IF onepc THEN m ELSE (m * m) \div 4
FitFails(ev) ==
  IF ev.method \notin Methods THEN
    Clause("ValueError for an unknown method", ev.exc = "ValueError")
      \cup ProbeFails(ev, est)
  ELSE IF ev.exc # "" THEN {"fit raised " \o ev.exc}
  ELSE LET after == [est EXCEPT ![ev.o] = [mle |-> IF ev.method = "mle" THEN ev.probe[ev.o].mle ELSE @.mle,
                                           lse |-> IF ev.method = "lse" THEN ev.probe[ev.o].lse ELSE @.lse,
                                           last |-> ev.method]]
       IN UNION {
         Clause("fitting returns the model", ev.self),
         Clause("number of latents", ev.k = Latents(ev.onepc, ev.m)),
         Clause("error covariance is diagonal", ev.diag),
         Clause("data left alone", ev.kept),
         Clause("sampling succeeds after a fit", ev.probe[ev.o][ev.method] # "ValueError"),
         ProbeFails(ev, after),
         IF ev.moments THEN Moments(ev) ELSE {} }
SampleFails(ev) ==
  ProbeFails(ev, est) \cup
  IF ev.method \notin Methods \/ Expected(est[ev.o], ev.method) = "ValueError"
  THEN Clause("ValueError for sampling without a fit by the method", ev.exc = "ValueError")
  ELSE IF ev.exc # "" THEN {"sample raised " \o ev.exc}
  ELSE Clause("a row per observation and a column per measurement", ev.shape)

--------------------------------------------------------------------------
(* Losses.  Integers: data x (columns), w (rows), d; unit u for w and data.
   S: sample covariance times n (n-1); M: w'w + d, both in 1 / u^2.         *)
U == 10000
RECURSIVE SumP(_, _, _), SumV(_, _), WW(_, _, _, _), SumRow(_, _)
SumP(x, y, i) == IF i = 0 THEN 0 ELSE x[i] * y[i] + SumP(x, y, i - 1)
SumV(x, i) == IF i = 0 THEN 0 ELSE x[i] + SumV(x, i - 1)
WW(W, j, h, i) == IF i = 0 THEN 0 ELSE W[i][j] * W[i][h] + WW(W, j, h, i - 1)
SumRow(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumRow(f, i - 1)
Cov(x, y) == LET n == Len(x) IN n * SumP(x, y, n) - SumV(x, n) * SumV(y, n)
Model(ev) == TLCEval([j \in 1..ev.m |-> TLCEval([h \in 1..ev.m |->
               WW(ev.w, j, h, Len(ev.w)) + (IF j = h THEN ev.d[j] ELSE 0)])])
\* squared distance, in 10^-4, for m <= 3
Distance(ev) ==
  LET M == Model(ev)
      n == Len(ev.x[1])
      den == n * (n - 1)
      \* residual in 1 / (den u^2), then in 10^-3
      r(j, h) == LET t == Cov(ev.x[j], ev.x[h]) - den * M[j][h] IN (t * 1000) \div (den * ev.u * ev.u)
      f == TLCEval([i \in 1..(ev.m * ev.m) |->
             Sq(r(((i - 1) \div ev.m) + 1, ((i - 1) % ev.m) + 1)) \div 100])
  IN SumRow(f, ev.m * ev.m)
DistRounding(ev) == \* of a step of 10^-3 in each residual
  LET M == Model(ev)
      n == Len(ev.x[1])
      den == n * (n - 1)
      r(j, h) == LET t == Cov(ev.x[j], ev.x[h]) - den * M[j][h] IN Abs((t * 1000) \div (den * ev.u * ev.u))
      f == TLCEval([i \in 1..(ev.m * ev.m) |->
             r(((i - 1) \div ev.m) + 1, ((i - 1) % ev.m) + 1) \div 50 + 2])
  IN SumRow(f, ev.m * ev.m)

\* ln 2^e, in 10^-4
LN2 == 69315
Ln2Pow(e) == IF e >= 0 THEN (LN2 * e) \div 10 ELSE -((LN2 * (-e)) \div 10)
\* likelihood for m = 2, where the determinant of M in 1 / u^4 is 2^ev.log:
\* trace(S M^-1) + ln det M
Det2(M) == M[1][1] * M[2][2] - Sq(M[1][2])
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
RECURSIVE Log2(_)
Log2(x) == IF x = 1 THEN 0 ELSE 1 + Log2(x \div 2)
Likelihood(ev) ==
  LET M == Model(ev)
      n == Len(ev.x[1])
      den == n * (n - 1)
      num == M[2][2] * Cov(ev.x[1], ev.x[1]) + M[1][1] * Cov(ev.x[2], ev.x[2])
             - 2 * M[1][2] * Cov(ev.x[1], ev.x[2])
      det == Det2(M)
      \* num / (den det) in 10^-4
      q == num \div (den * det)
      r == num % (den * det)
      trace == q * U + (IF den * det < 200000 THEN (r * U) \div (den * det)
                        ELSE ((r \div 100) * U) \div ((den * det) \div 100))
  IN trace + Ln2Pow(ev.log - 4 * Log2(ev.u))

AbsSum(ev) == SumRow([i \in DOMAIN ev.w |-> SumRow([j \in 1..ev.m |-> Abs(ev.w[i][j])], ev.m)], Len(ev.w))
SqSum(ev) == SumRow([i \in DOMAIN ev.w |-> SumRow([j \in 1..ev.m |-> Sq(ev.w[i][j])], ev.m)], Len(ev.w))
\* the square of the nuclear norm, for one latent or for two latents and two
\* measurements, times u^2
NucSq(ev) == SqSum(ev) +
  (IF Len(ev.w) = 2 THEN 2 * Abs(ev.w[1][1] * ev.w[2][2] - ev.w[1][2] * ev.w[2][1]) ELSE 0)

\* v0: the loss without penalties, vl: with lambda = 1, vm: with mu = 1,
\* vb: with lambda = 2, mu = 3
LossFails(ev) ==
  IF ev.exc # "" THEN {"validation raised " \o ev.exc} ELSE
  LET nuc == ev.vl - ev.v0
      abs == ev.vm - ev.v0
  IN UNION {
    IF ev.method = "lse" THEN
      Clause("squared distance of the covariances", Abs(ev.v0 - Distance(ev)) <= DistRounding(ev) + ev.m * ev.m)
    ELSE UNION {
      Clause("determinant (harness)", Det2(Model(ev)) = Pow2(ev.log) /\ Pow2(Log2(ev.u)) = ev.u),
      Clause("likelihood", Abs(ev.v0 - Likelihood(ev)) <= 20 + Abs(ev.v0) \div 2000) },
    Clause("absolute sum of the weights", Abs(abs * ev.u - AbsSum(ev) * U) <= 3 * ev.u),
    \* (nuc / U)^2 = NucSq / u^2, in 10^-2 steps
    Clause("nuclear norm of the weights",
      LET t == nuc \div 10 IN Abs(((t * t) \div 1000) * ev.u * ev.u - NucSq(ev) * 1000)
                               <= (3 + t \div 200) * ev.u * ev.u),
    Clause("penalties are weighted",
      Abs(ev.vb - ev.v0 - 2 * nuc - 3 * abs) <= 10),
    Clause("data and estimates left alone", ev.kept) }

Fails(ev) ==
  CASE ev.op = "start" -> {}
    [] ev.op = "fit" -> FitFails(ev)
    [] ev.op = "sample" -> SampleFails(ev)
    [] ev.op = "validate" -> (IF ev.exc # "" THEN {"validation raised " \o ev.exc} ELSE {}) \cup ProbeFails(ev, est)
    [] ev.op = "loss" -> LossFails(ev)
Init == l = 1 /\ bad = <<>> /\ est = Start /\ memo = {}
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     /\ bad' = Note(bad, l, Fails(ev))
     /\ est' = CASE ev.op = "start" -> Start
          [] ev.op = "fit" /\ ev.exc = "" /\ ev.method \in Methods ->
               [est EXCEPT ![ev.o] = [mle |-> IF ev.method = "mle" THEN ev.probe[ev.o].mle ELSE @.mle,
                                      lse |-> IF ev.method = "lse" THEN ev.probe[ev.o].lse ELSE @.lse,
                                      last |-> ev.method]]
          [] OTHER -> est
  /\ UNCHANGED memo
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, est, memo>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
