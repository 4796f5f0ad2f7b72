---------------------------- MODULE PenFitTrace -----------------------------
(* C26: batches of penalized fits by one method with one pair of penalty
   weights (la, mu).  gain, in 10^-4: by how much the criterion is lower at
   the best of some points next to the estimates (data have variances of
   about 2).  The optimizer gets stuck at kinks of the penalties sometimes,
   but not for more than a third of the data sets, and where there is no
   penalty for hardly any.                                                  *)
EXTENDS TraceLib
VARIABLES l, bad, fits, far, pen
Tol == IF pen THEN 30 ELSE 1
Stuck(e) == e.exc = "" /\ e.shape /\ e.finite /\ e.gain > Tol
FitFails(ev) ==
  IF ev.exc # "" THEN {"fit raised " \o ev.exc}
  ELSE IF ~ev.shape THEN {"finite weights per measurement, and a square error covariance"}
  ELSE UNION {
    Clause("error variances are not negative", \A j \in DOMAIN ev.d : ev.d[j] >= 0),
    Clause("the criterion is finite at the estimates", ev.finite) }
EndFails ==
  Clause("estimates minimise the criterion", IF pen THEN far * 3 <= fits ELSE far * 20 <= fits)
Fails(ev) ==
  CASE ev.e = "batch" -> {}
    [] ev.e = "fit" -> FitFails(ev)
    [] ev.e = "end" -> EndFails
Init == l = 1 /\ bad = <<>> /\ fits = 0 /\ far = 0 /\ pen = FALSE
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
  /\ LET ev == Trace[l]
     IN CASE ev.e = "batch" -> fits' = 0 /\ far' = 0 /\ pen' = (ev.la + ev.mu > 0)
          [] ev.e = "fit" -> fits' = fits + 1 /\ far' = far + (IF Stuck(ev) THEN 1 ELSE 0) /\ pen' = pen
          [] OTHER -> UNCHANGED <<fits, far, pen>>
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, fits, far, pen>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad, fits, far, pen>>
=============================================================================
