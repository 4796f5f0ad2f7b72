----------------------------- MODULE ViewTrace ------------------------------
(* C22: what recorded figures show.
   "dag": rows (children of each latent); arrows <<latent, measurement>>, as
   far as they go from a node labelled as the one to one labelled as the
   other, and strange: the number of arrows that do not.
   "adj": image is a matrix of 0/1.  "values": given values
   (x), threshold (or none) and image in the unit, texts <<row, col, value>>
   in hundredths.
   "pairs": points of the panel of each pair of variables.                   *)
EXTENDS TraceLib
VARIABLES l, bad

Edges(rows) == UNION {{<<i, j>> : j \in Range(rows[i])} : i \in DOMAIN rows}
Share(rows, i, j) == \E h \in DOMAIN rows : {i, j} \subseteq Range(rows[h])

Dag(ev) == UNION {
  Clause("a node per latent and measurement", ev.latents = Len(ev.rows) /\ ev.meas = ev.m),
  Clause("arrows are from latents to measurements", ev.strange = 0),
  Clause("an arrow exactly for every edge", Range(ev.arrows) = Edges(ev.rows)),
  Clause("structure left alone", ev.kept) }
DagMatrix(ev) ==
  LET k == Len(ev.rows) IN
  Clause("matrix of the DAG has the edges and no others",
    /\ Len(ev.matrix) = k + ev.m
    /\ \A i, j \in 1..(k + ev.m) :
         ev.matrix[i][j] = (IF i <= k /\ j > k /\ <<i, j - k>> \in Edges(ev.rows) THEN 1 ELSE 0))
Adj(ev) == UNION {
  Clause("measurements are adjacent exactly if they share a latent",
    /\ Len(ev.image) = ev.m
    /\ \A i, j \in 1..ev.m : ev.image[i][j] = (IF Share(ev.rows, i, j) THEN 1 ELSE 0)),
  Clause("measurements are numbered along both sides",
    ev.xticks = [i \in 1..ev.m |-> i] /\ ev.yticks = [i \in 1..ev.m |-> i]),
  Clause("structure left alone", ev.kept) }
Shown(ev, i, j) == IF ev.th THEN (IF ev.x[i][j] > ev.thresh THEN ev.unit ELSE 0) ELSE ev.x[i][j]
Values(ev) == UNION {
  Clause("shows the values, or 0/1 by the threshold",
    /\ Len(ev.image) = ev.m
    /\ \A i, j \in 1..ev.m : ev.image[i][j] = Shown(ev, i, j)),
  Clause("numbers are at their own cells",
    IF ev.print
    THEN /\ Len(ev.texts) = ev.m * ev.m
         /\ \A i, j \in 1..ev.m : 
              \E t \in Range(ev.texts) :
                /\ t[1] = i /\ t[2] = j
                /\ LET d == t[3] * (ev.unit \div 100) - Shown(ev, i, j)
                   IN 200 * d <= ev.unit /\ -200 * d <= ev.unit
    ELSE ev.texts = <<>>),
  Clause("measurements are numbered along both sides",
    ev.xticks = [i \in 1..ev.m |-> i] /\ ev.yticks = [i \in 1..ev.m |-> i]),
  Clause("values left alone", ev.kept) }
\* panels: <<row variable, column variable, digest of its points>>
Pairs(ev) == UNION {
  Clause("a panel of the first 1000 observations for every pair of variables",
    /\ \A i \in 1..ev.m : \A j \in 1..(i - 1) :
         \E p \in Range(ev.panels) : p.row = i /\ p.col = j /\ p.n = (IF ev.n > 1000 THEN 1000 ELSE ev.n) /\ p.match
    /\ \A p \in Range(ev.panels) : p.match),
  Clause("a panel for every variable", \A i \in 1..ev.m : i \in Range(ev.diag)),
  Clause("sample left alone", ev.kept) }

Fails(ev) ==
  IF ev.exc # "" THEN {ev.e \o " raised " \o ev.exc}
  ELSE CASE ev.e = "dag" -> Dag(ev) [] ev.e = "matrix" -> DagMatrix(ev) [] ev.e = "adj" -> Adj(ev)
         [] ev.e = "values" -> Values(ev) [] ev.e = "pairs" -> Pairs(ev)
Init == l = 1 /\ bad = <<>>
Step == l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED bad /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
