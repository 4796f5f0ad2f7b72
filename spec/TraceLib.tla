------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications share.  A trace is a sequence of records
   with a field `e`, the kind of the event.  Verdicts are total: a trace
   specification consumes every line, and collects for each line the names
   of the clauses it fails.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Clause(name, ok) == IF ok THEN {} ELSE {name}

\* the value of a field that some events lack
Opt(ev, f, default) == IF f \in DOMAIN ev THEN ev[f] ELSE default

Range(s) == {s[i] : i \in DOMAIN s}
SetOfSets(s) == {Range(s[i]) : i \in DOMAIN s}

Kinds == {Trace[i].e : i \in DOMAIN Trace}
Counts == [k \in Kinds |-> Cardinality({i \in DOMAIN Trace : Trace[i].e = k})]

Report(bad) ==
  PrintT("TRACE_DONE " \o
         ToJson([lines |-> Len(Trace), bad |-> bad, counts |-> Counts]))

Note(bad, l, f) ==
  IF f = {} THEN bad ELSE Append(bad, [line |-> l, clauses |-> f])

Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
