------------------------------ MODULE UdgTrace ------------------------------
(* C12: recorded estimates of dependence matrices.  p-values and levels are in
   units of 10^-9 (a p-value that is not a number is a large one).
   A session is about one sample: line "whole" has the estimate for all of it,
   "part" one for some of its columns, "given" one from given p-values.     *)
EXTENDS TraceLib
VARIABLES l, bad, base, decisions
vars == <<l, bad, base, decisions>>

Near(a, b) == Abs(a - b) <= 2

MatrixFails(ev) ==
  LET m == Len(ev.udg) IN UNION {
    Clause("sample left unchanged", ev.unchanged),
    Clause("matrix of booleans of the size of the sample", ev.shape),
    IF ~ev.shape THEN {} ELSE UNION {
      Clause("dependence matrix is symmetric", \A i, j \in 1..m : ev.udg[i][j] = ev.udg[j][i]),
      Clause("no self-dependence", \A i \in 1..m : ev.udg[i][i] = 0),
      IF ev.p = <<>> THEN {} ELSE UNION {
        Clause("p-values are symmetric", \A i, j \in 1..m : i # j => ev.p[i][j] = ev.p[j][i]),
        Clause("dependent exactly if the p-value is below the level",
               \A i, j \in 1..m : i # j => (ev.udg[i][j] = 1 <=> ev.p[i][j] < ev.level)) } } }

\* the entries of an estimate for some of the columns
PartFails(ev, b) ==
  LET m == Len(ev.udg) IN
  IF ~ev.shape THEN {} ELSE UNION {
    Clause("entry depends on its two measurements only",
      \A i, j \in 1..m : i < j =>
        /\ ev.udg[i][j] = b.udg[ev.cols[i]][ev.cols[j]]
        /\ (ev.p # <<>> => Near(ev.p[i][j], b.p[ev.cols[i]][ev.cols[j]]))) }

\* p-values of the test itself, for single pairs
DirectFails(ev, b) ==
  Clause("entry has the p-value of the test of its two measurements",
    \A x \in DOMAIN ev.pairs : LET q == ev.pairs[x] IN Near(q.p, b.p[q.i][q.j]))

Init == l = 1 /\ bad = <<>> /\ base = [udg |-> <<>>, p |-> <<>>] /\ decisions = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         whole == ev.op \in {"whole", "given"} /\ ev.exc = "" /\ ev.shape
         fails ==
           IF ev.exc # "" THEN {ev.op \o " raised " \o ev.exc}
           ELSE CASE ev.op = "whole" -> MatrixFails(ev)
             [] ev.op = "given" -> MatrixFails(ev) \cup
                  Clause("given p-values are left alone", ev.unchanged)
             [] ev.op = "part" -> MatrixFails(ev) \cup PartFails(ev, base)
             [] ev.op = "direct" -> DirectFails(ev, base)
         \* decisions at lower and higher levels from earlier lines
         mono == IF ~whole THEN {} ELSE
           Clause("a higher level never removes a dependence",
             \A d \in Range(decisions) : \A i, j \in DOMAIN ev.udg :
               /\ d.level <= ev.level => d.udg[i][j] <= ev.udg[i][j]
               /\ d.level >= ev.level => d.udg[i][j] >= ev.udg[i][j])
     IN /\ bad' = Note(bad, l, fails \cup (IF ev.first THEN {} ELSE mono))
        /\ base' = IF ev.op = "whole" /\ whole THEN [udg |-> ev.udg, p |-> ev.p] ELSE base
        /\ decisions' = LET old == IF ev.first THEN <<>> ELSE decisions IN
             IF whole THEN Append(old, [level |-> ev.level, udg |-> ev.udg]) ELSE old
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, base, decisions>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
