----------------------------- MODULE FuncTrace ------------------------------
(* C25: recorded histories of calls (see Funcs for the designs that this is
   to tell apart).  content: what the caller wrote to its argument objects;
   memo: what each function returned for each content so far (in any
   representation of it): disc is a digest of the discrete parts, vals are the
   real ones in fixed point.  args, held: whether the driver found arguments
   and earlier results as they were.                                        *)
EXTENDS TraceLib
VARIABLES l, bad, content, memo
\* functions of both objects
Two == {"sfd", "perm", "permabs"}
Key(ev) == IF ev.f \in Two THEN <<ev.f, content[ev.o], content[3 - ev.o]>> ELSE <<ev.f, content[ev.o]>>
Result(ev) == [exc |-> ev.exc, disc |-> ev.disc, vals |-> ev.vals]
Same(a, b) ==
  /\ a.exc = b.exc /\ a.disc = b.disc /\ Len(a.vals) = Len(b.vals)
  /\ \A i \in DOMAIN a.vals : Abs(a.vals[i] - b.vals[i]) <= 2
CallFails(ev) ==
  UNION {
    Clause("equal arguments give equal results",
           Key(ev) \in DOMAIN memo => Same(memo[Key(ev)], Result(ev))),
    Clause("arguments are left alone", ev.args),
    Clause("earlier results are left alone", ev.held),
    Clause("global state is left alone", ev.globals),
    IF ev.exc # "" THEN {"call raised " \o ev.exc} ELSE {} }
Fails(ev) == IF ev.e = "call" THEN CallFails(ev) ELSE {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ bad = <<>> /\ content = <<1, 2>> /\ memo = <<>>
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
  /\ LET ev == Trace[l]
     IN CASE ev.e = "session" -> content' = <<1, 2>> /\ memo' = <<>>
          [] ev.e = "write" -> content' = [content EXCEPT ![ev.o] = ev.x] /\ memo' = memo
          [] ev.e = "process" -> content' = <<1, 2>> /\ memo' = memo
          [] ev.e = "call" -> content' = content /\ memo' =
               IF Key(ev) \in DOMAIN memo THEN memo ELSE Put(memo, Key(ev), Result(ev))
          [] OTHER -> UNCHANGED <<content, memo>>
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, content, memo>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad, content, memo>>
=============================================================================
