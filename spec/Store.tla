------------------------------- MODULE Store --------------------------------
(* What fitting a neural model does to the model in memory, to the files in
   its directory and to the log (C18, C24).  Results are named by the key of
   a fit (seed, settings and data), which determines them.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Files == {"model", "loss", "error"}
NoDisk == [f \in Files |-> "none"]

\* the log of an undisturbed fit over E epochs, without the values in it
Tokens(E) == <<"parameters">> \o
  [i \in 1..(3 * E) |-> <<"training", "trained", "validated">>[((i - 1) % 3) + 1]]
PrefixOf(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))

\* what a fit with this key leaves behind, depending on where it fails:
\* "" not at all, "train" before the first result is written, or "write"
MemAfter(mem, key, fail) == IF fail = "" THEN key ELSE mem
DiskOK(before, after, key, fail) ==
  CASE fail = "" -> after = [f \in Files |-> key]
    [] fail = "train" -> after = before
    [] OTHER -> \A f \in Files : after[f] \in {before[f], key, "broken"}
LogOK(before, after, E, fail) ==
  /\ PrefixOf(before, after)
  /\ LET new == SubSeq(after, Len(before) + 1, Len(after)) IN
     IF fail = "train" THEN PrefixOf(new, Tokens(E)) ELSE new = Tokens(E)
=============================================================================
