----------------------------- MODULE TrainTrace -----------------------------
(* C17: recorded fits.  "fit" starts one: n observations, batch size b, epochs,
   explicit split (train, valid: lists) or not; "batch": rows (of the data
   set, 0 for something that is none of it), random (same input, different
   outputs), weights (digest when passed), std (rows are standardized);
   "step": one optimizer step; "end": lengths of the loss histories.        *)
EXTENDS Train, TraceLib
VARIABLES l, bad, fit, s, T, V, w, over
vars == <<l, bad, fit, s, T, V, w, over>>

\* without an explicit split, the training observations are those of the
\* first epoch's training passes, the validation ones the rest
Rows(ev) == Range(ev.rows)
TrainSet == IF fit.explicit THEN Range(fit.train) ELSE T
ValidSet == IF fit.explicit THEN Range(fit.valid) ELSE V

BatchFails(ev) == UNION {
  Clause("observations of the data set", 0 \notin Rows(ev) /\ Len(ev.rows) = Cardinality(Rows(ev))),
  Clause("standardized unless split explicitly", fit.explicit \/ ev.std),
  IF s.phase = "train" THEN UNION {
    Clause("each training observation once an epoch, in batches", TrainOK(s, Rows(ev), TrainSet, fit.b)),
    Clause("training samples latents", ev.random) }
  ELSE IF s.phase = "valid" THEN UNION {
    Clause("then each validation observation once, in batches", ValidOK(s, Rows(ev), ValidSet, fit.b)),
    Clause("validation is deterministic", ~ev.random),
    Clause("validation leaves the weights alone", w = "" \/ ev.weights = w) }
  ELSE IF s.phase = "step" THEN {"each training batch is followed by an optimizer step"}
  ELSE {"as many epochs as configured"} }

StepFails(ev) ==
  UNION { Clause("one optimizer step after each training batch only", s.phase = "step"),
          Clause("an optimizer step changes the weights", ev.changed) }
EndFails(ev) == UNION {
  Clause("fit succeeds", ev.exc = ""),
  Clause("as many epochs as configured", ev.exc # "" \/ s.phase = "done"),
  Clause("as many entries of each loss history as epochs",
         \A i \in DOMAIN ev.lens : ev.lens[i] = fit.epochs),
  Clause("fitting returns the model", ev.self),
  Clause("data left alone", ev.kept) }
\* the random split
SplitFails ==
  Clause("70 percent are for training, the rest for validation",
         fit.explicit \/ (/\ Abs(10 * Cardinality(T) - 7 * fit.n) <= 10
                          /\ T \cap V = {} /\ T \cup V = 1..fit.n))

Init == l = 1 /\ bad = <<>> /\ fit = <<>> /\ s = Fresh /\ T = {} /\ V = {} /\ w = "" /\ over = FALSE
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "fit" ->
            /\ fit' = ev /\ s' = Fresh /\ w' = "" /\ over' = FALSE /\ UNCHANGED bad
            /\ T' = Range(ev.train) /\ V' = Range(ev.valid)
       [] ev.e = "batch" ->
            LET f == IF over THEN {} ELSE BatchFails(ev) IN
            /\ bad' = Note(bad, l, f)
            /\ over' = (over \/ f # {})     \* one verdict per fit
            /\ s' = IF f # {} THEN s ELSE IF s.phase = "train" THEN AfterTrain(s, Rows(ev))
                    ELSE AfterValid(s, Rows(ev), ValidSet, fit.epochs)
            /\ w' = IF s.phase = "valid" THEN ev.weights ELSE ""
            /\ UNCHANGED <<fit, T, V>>
       [] ev.e = "step" ->
            LET f == IF over THEN {} ELSE StepFails(ev) IN
            /\ bad' = Note(bad, l, f) /\ over' = (over \/ f # {})
            /\ s' = IF f # {} THEN s ELSE AfterStep(s, TrainSet)
            /\ w' = "" /\ UNCHANGED <<fit, T, V>>
       [] ev.e = "end" ->
            /\ bad' = Note(bad, l, (IF over THEN {} ELSE EndFails(ev)) \cup SplitFails)
            /\ UNCHANGED <<fit, s, T, V, w, over>>
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, fit, s, T, V, w, over>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
