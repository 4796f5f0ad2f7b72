----------------------------- MODULE EditTrace ------------------------------
(* C21: recorded histories of editing, copying and exporting graphs.
   State: the edges that every object has to have after the operations.     *)
EXTENDS Graphs, TraceLib
VARIABLES l, bad, n, want
vars == <<l, bad, n, want>>

Und(es) == {<<Min({es[i][1], es[i][2]}), Max({es[i][1], es[i][2]})>> : i \in DOMAIN es}

\* what an object of the code looks like: rows of its adjacency matrix as sets
StateFails(o, W, nn) ==
  LET R == [v \in DOMAIN o.rows |-> Range(o.rows[v])] IN UNION {
    Clause("matrix has a row per vertex", Len(o.rows) = nn),
    IF Len(o.rows) # nn THEN {} ELSE UNION {
      Clause("matrix of zeros and ones", o.binary),
      Clause("matrix is symmetric", \A u, v \in 1..nn : u \in R[v] <=> v \in R[u]),
      Clause("matrix is what the edits make of it",
             {e \in (1..nn) \X (1..nn) : e[1] < e[2] /\ e[2] \in R[e[1]]} = W) },
    Clause("number of edges matches", o.edges = Cardinality(W)) }

\* closed common neighbourhoods of all edges, and the edges within
AuxFails(ev, W) ==
  LET G == FromEdges(1..n, W)
      listed == {<<ev.aux[i].u, ev.aux[i].v>> : i \in DOMAIN ev.aux}
      closed(e) == (G[e[1]] \cap G[e[2]]) \cup {e[1], e[2]}
  IN IF W = {} THEN Clause("no auxiliary structure without edges", ev.exc = "ValueError")
     ELSE IF ev.exc # "" THEN {"auxiliary structure raised " \o ev.exc}
     ELSE UNION {
       Clause("auxiliary structure lists every edge", listed = W /\ Len(ev.aux) = Cardinality(W)),
       Clause("edges have rows of their own",
              Cardinality({ev.aux[i].idx : i \in DOMAIN ev.aux}) = Len(ev.aux)),
       IF listed # W THEN {} ELSE UNION {
         Clause("closed common neighbourhood",
           \A i \in DOMAIN ev.aux :
             Range(ev.aux[i].common) = closed(<<ev.aux[i].u, ev.aux[i].v>>)),
         Clause("number of edges in the neighbourhood",
           \A i \in DOMAIN ev.aux : ev.aux[i].count =
             Cardinality({e \in PairsOf(closed(<<ev.aux[i].u, ev.aux[i].v>>)) : e \in W})) } }

\* the file: number of vertices, then a degree per vertex, then edges; that
\* vertices are their own neighbours may be listed or not
ExportFails(ev, W) ==
  IF ev.exc # "" THEN {"export raised " \o ev.exc} ELSE
  LET pairs == {<<ev.lines[i][1], ev.lines[i][2]>> : i \in DOMAIN ev.lines}
      loops == {p \in pairs : p[1] = p[2]}
      G == FromEdges(1..n, W)
  IN UNION {
    Clause("exported number of vertices", ev.count = n),
    Clause("exported degrees", /\ Len(ev.degrees) = n
           /\ \A v \in 1..n : v \in DOMAIN ev.degrees => ev.degrees[v] =
                Cardinality(G[v]) + (IF <<v, v>> \in loops THEN 1 ELSE 0)),
    Clause("exported edges", Und([i \in DOMAIN ev.lines |-> ev.lines[i]]) \ loops = W
           /\ Len(ev.lines) = Cardinality(pairs)
           /\ \A p, q \in pairs : p = <<q[2], q[1]>> => p = q) }

Init == l = 1 /\ bad = <<>> /\ n = 0 /\ want = <<>>
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         o == ev.o
         m == IF ev.op = "graph" THEN ev.n ELSE n
         w == CASE ev.op = "graph" -> (0 :> Und(ev.es))
                [] ev.op = "copy" -> [x \in DOMAIN want \cup {ev.x} |->
                                        IF x = ev.x THEN want[o] ELSE want[x]]
                [] ev.op = "add" -> [want EXCEPT ![o] = @ \cup Und(ev.es)]
                [] ev.op = "remove" -> [want EXCEPT ![o] = @ \ Und(ev.es)]
                [] OTHER -> want
     IN /\ want' = w
        /\ n' = m
        /\ bad' = Note(bad, l,
             IF ev.op \notin {"aux", "export"} /\ ev.exc # ""
             THEN {ev.op \o " raised " \o ev.exc}
             ELSE UNION {
               UNION {StateFails(ev.st[x + 1], w[x], m) : x \in DOMAIN w},
               IF ev.op = "aux" THEN AuxFails(ev, w[o]) ELSE {},
               IF ev.op = "export" THEN ExportFails(ev, w[o]) ELSE {} })
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, n, want>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
