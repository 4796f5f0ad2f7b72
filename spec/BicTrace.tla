------------------------------ MODULE BicTrace ------------------------------
(* C10: recorded dependence graphs of Gaussian fits; cols: the measurements
   (integers, the data was some increasing affine image of them), mult: how
   often each observation is there, or <<>> for once                        *)
EXTENDS Bic, TraceLib
VARIABLES l, bad
Fails(ev) ==
  IF ev.exc # "" THEN {"fit raised " \o ev.exc}
  ELSE IF ~ev.shape THEN {"dependence graph is a matrix over the measurements"}
  ELSE LET m == Len(ev.cols) IN UNION {
    Clause("dependence graph is symmetric", \A i, j \in 1..m : ev.udg[i][j] = ev.udg[j][i]),
    Clause("no self-dependence", \A i \in 1..m : ev.udg[i][i] = 0),
    Clause("dependent exactly if (1 - r^2)^n n < 1",
      \A i, j \in 1..m : i < j =>
        IF ev.mult = <<>> THEN ev.udg[i][j] = 1 <=> Dependent(ev.cols[i], ev.cols[j])
        ELSE LET v == Decide(ev.cols[i], ev.cols[j], ev.mult)
             IN v = 2 \/ ev.udg[i][j] = v) }
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
