------------------------------ MODULE StoreMC -------------------------------
(* Fitting in its single steps, each of which may fail; when it is over, it
   has to have done what Store says.  EAGER is a wrong variant, which takes
   over a result before it is written; INPLACE another, which continues to
   train the network of the earlier fit.                                    *)
EXTENDS Store
CONSTANTS KEYS, E, FITS, EAGER, INPLACE
VARIABLES pc, mem, disk, log, key, before, fail, n, todo
vars == <<pc, mem, disk, log, key, before, fail, n, todo>>
Now == [mem |-> mem, disk |-> disk, log |-> log]
Init == /\ pc = "idle" /\ mem = "none" /\ disk = NoDisk /\ log = <<>> /\ key = "none" /\ fail = "none"
        /\ before = [mem |-> "none", disk |-> NoDisk, log |-> <<>>] /\ n = 0 /\ todo = <<>>
Start == /\ pc = "idle" /\ n < FITS
         /\ \E k \in KEYS : key' = k
         /\ n' = n + 1 /\ pc' = "train" /\ before' = Now /\ todo' = Tokens(E)
         /\ fail' = "none" /\ UNCHANGED <<mem, disk, log>>
\* batches between two lines of the log
Work == /\ pc = "train" /\ todo # <<>>
        /\ mem' = (IF INPLACE /\ mem # "none" THEN "half" ELSE mem)
        /\ log' = Append(log, Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED <<pc, disk, key, before, fail, n>>
Trained == /\ pc = "train" /\ todo = <<>> /\ pc' = "model"
           /\ mem' = (IF EAGER THEN key ELSE mem)
           /\ UNCHANGED <<disk, log, key, before, fail, n, todo>>
After == [model |-> "loss", loss |-> "error", error |-> "commit"]
Open == /\ pc \in Files /\ disk[pc] # "broken" /\ disk' = [disk EXCEPT ![pc] = "broken"]
        /\ UNCHANGED <<pc, mem, log, key, before, fail, n, todo>>
Write == /\ pc \in Files /\ disk[pc] = "broken"
         /\ disk' = [disk EXCEPT ![pc] = key] /\ pc' = After[pc]
         /\ UNCHANGED <<mem, log, key, before, fail, n, todo>>
Commit == /\ pc = "commit" /\ mem' = key /\ pc' = "idle" /\ fail' = ""
          /\ UNCHANGED <<disk, log, key, before, n, todo>>
Fail == /\ pc \in {"train"} \cup Files
        /\ fail' = (IF pc = "train" THEN "train" ELSE "write") /\ pc' = "idle"
        /\ UNCHANGED <<mem, disk, log, key, before, n, todo>>
Next == Start \/ Work \/ Trained \/ Open \/ Write \/ Commit \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Outcome == (pc = "idle" /\ fail # "none") =>
  /\ mem = MemAfter(before.mem, key, fail)
  /\ DiskOK(before.disk, disk, key, fail)
  /\ LogOK(before.log, log, E, fail)
\* a model is never half of one fit and half of another
Whole == mem \in KEYS \cup {"none"}
Restored == (pc = "idle" /\ fail = "") => \A f \in Files : disk[f] = mem
LogGrows == [][PrefixOf(log, log')]_vars
Ends == []<>(pc = "idle")
=============================================================================
