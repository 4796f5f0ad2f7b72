--------------------------- MODULE ObjectiveTrace ---------------------------
(* C23: recorded epochs, with weights that stay as they are (learning rate 0).
   A line: the epoch's passes (train, valid), the reported losses (lt, lv, in
   10^-4), beta, lambda, mu (in hundredths), w: the first covariance layer;
   et, ev: the reported reconstruction errors;
   nuc: the nuclear norm found from the difference that lambda makes.       *)
EXTENDS Objective, TraceLib
VARIABLES l, bad
\* the loss per observation, of a pass, without the norms of the weights
Data(p, m, beta) ==
  LET kl == KL2(p) \div 2
  IN (Recon2(p, m) \div 2 + (kl \div 100) * beta + ((kl % 100) * beta) \div 100) \div Len(p.x)
Mean(f) == SumTo(f, Len(f)) \div Len(f)
PerObs(ev, p) == ((ev.nuc * ev.lambda) \div 100 + (AbsSum(ev.w) * ev.mu) \div 100) \div Len(p.x)
Near(a, b) == Abs(a - b) <= 20 + b \div 500
Close(a, b) == Abs(a - b) <= 30 + Abs(b) \div 500
\* the reconstruction error e of an epoch's passes: the average of the
\* spectral norms per observation (bounds of them, for more variables)
Error(e, ps, m) ==
  IF m <= 2 THEN Near(e, Mean(TLCEval([i \in DOMAIN ps |-> Spectral(ps[i], m) \div Len(ps[i].x)])))
  ELSE LET f == Mean(TLCEval([i \in DOMAIN ps |-> Frobenius(ps[i], m) \div Len(ps[i].x)]))
       IN e <= f + 20 + f \div 500 /\ 174 * e >= 100 * (f - 20 - f \div 500)
Fails(ev) ==
  IF ev.exc # "" THEN {"fit raised " \o ev.exc} ELSE
  LET train == Mean(TLCEval([i \in DOMAIN ev.train |-> Data(ev.train[i], ev.m, ev.beta) + PerObs(ev, ev.train[i])]))
      valid == Mean(TLCEval([i \in DOMAIN ev.valid |-> Data(ev.valid[i], ev.m, ev.beta)]))
  IN UNION {
    Clause("training loss has the documented terms", Close(ev.lt, train)),
    Clause("validation loss has the documented terms", Close(ev.lv, valid)),
    Clause("training reconstruction error is the residuals' norm per observation", Error(ev.et, ev.train, ev.m)),
    Clause("validation reconstruction error is the residuals' norm per observation", Error(ev.ev, ev.valid, ev.m)),
    Clause("nuclear norm of the first covariance layer",
      Len(ev.w) > 2 \/ Close(Mul(ev.nuc, ev.nuc), NucSq(ev.w))) }
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
