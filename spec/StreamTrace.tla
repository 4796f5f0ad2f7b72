---------------------------- MODULE StreamTrace -----------------------------
(* C09: a session is the same work executed in several processes: line
   "session" starts one, "process" lines start a process, "op" lines are
   operations.  own, foreign: digests of the result; np, torch: whether the
   global generators were left alone.
   memo: what each stream's history gave, in the whole session.             *)
EXTENDS TraceLib
VARIABLES l, bad, hist, memo, seeds
vars == <<l, bad, hist, memo, seeds>>
NoHist == [s \in {"0", "1", "2"} |-> <<>>]

Key(ev) == <<IF ev.s = "0" THEN 0 ELSE seeds[ev.s], hist[ev.s], ev.op, ev.x>>
OpFails(ev) ==
  IF ev.exc # "" THEN {ev.op \o " raised " \o ev.exc} ELSE UNION {
    Clause("result is a function of the generator's own history",
      LET k == Key(ev) IN \A m \in memo : m[1] = k => m[2] = ev.dig),
    \* other histories of equal length give something else: successive draws
    Clause("successive draws differ",
      ev.discrete \/ \A m \in memo :
        (/\ m[1][1] = Key(ev)[1] /\ m[1][3] = ev.op /\ m[1][4] = ev.x
         /\ Len(m[1][2]) < Len(hist[ev.s])
         /\ m[1][2] = SubSeq(hist[ev.s], 1, Len(m[1][2])))
        => m[2] # ev.dig),
    Clause("global generators left alone", ev.nokeep \/ (ev.np /\ ev.torch)) }

Init == l = 1 /\ bad = <<>> /\ hist = NoHist /\ memo = {} /\ seeds = [s \in {"1", "2"} |-> 0]
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "session" -> memo' = {} /\ hist' = NoHist /\ seeds' = ev.seeds /\ UNCHANGED bad
       [] ev.e = "process" -> hist' = NoHist /\ UNCHANGED <<bad, memo, seeds>>
       [] ev.e = "op" ->
            /\ bad' = Note(bad, l, OpFails(ev))
            /\ memo' = memo \cup {<<Key(ev), ev.dig>>}
            /\ hist' = [hist EXCEPT ![ev.s] = Append(@, <<ev.op, ev.x>>)]
            /\ UNCHANGED seeds
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, hist, memo, seeds>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
