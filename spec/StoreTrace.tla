----------------------------- MODULE StoreTrace -----------------------------
(* C18 and C24: recorded histories of neural models.
   "new": model o with directory dir and seed.
   "fit": of model o, with key (seed, settings, data) and rest (settings,
   data); fired: something was made to fail, at "train" or "write"; afterwards
   mem, net, weights, loss of the model (digests, "none" before a first fit),
   disk (digests of the bytes of the files), saved, kept (of the values that
   the files contain, and of the model's), log (tokens of the whole log),
   grown (the bytes of the log start with the earlier ones), files (all files
   there are), nparams, values (the losses in the new lines of the log).
   "ref": key and results of a fit in a process of its own.                 *)
EXTENDS Store, TraceLib
CONSTANTS WHICH
VARIABLES l, bad, obj, dirs, memo
vars == <<l, bad, obj, dirs, memo>>

NewDir == [files |-> NoDisk, log |-> <<>>]
C(p, name, ok) == IF WHICH = p THEN Clause(name, ok) ELSE {}

Kinds2(log) == [i \in DOMAIN log |-> log[i].k]
\* the lines of a fit, in order, with the right numbers of parameters, epochs
\* and values
LineOK(new, i, ev) ==
  LET t == new[i] e == (i - 2) \div 3 IN
  CASE i = 1 -> t.n = ev.nparams
    [] t.k = "training" -> t.n = e
    [] t.k = "trained" -> t.n = e /\ t.v = ev.values[e + 1][1]
    [] OTHER -> t.v = ev.values[e + 1][2]

Allowed(d) == {d \o "/" \o f : f \in {"training.log", "model_recon.pt", "loss_recon.pkl", "error_recon.pkl"}}

FitFails(ev) ==
  LET old == obj[ev.o]
      dir == dirs[old.dir]
      n == Len(dir.log)
      new == SubSeq(ev.log, n + 1, Len(ev.log))
      fail == IF ev.fired # "" THEN ev.fired ELSE IF ev.exc # "" THEN "train" ELSE ""
      known == ev.key \in DOMAIN memo
      others == {k \in DOMAIN memo : memo[k].rest = ev.rest /\ k # ev.key}
  IN UNION {
    C("C18", "only the documented files in the directories of the models",
      Range(ev.files) \subseteq UNION {Allowed(ToString(d)) : d \in DOMAIN dirs}),
    C("C18", "the log is appended to", ev.grown /\ PrefixOf(dir.log, ev.log)),
    IF fail = "" THEN UNION {
      C("C18", "same seed, settings and data give the same fit", known => memo[ev.key].mem = ev.mem),
      C("C18", "another seed gives another fit", \A k \in others : memo[k].mem # ev.mem),
      C("C18", "all of the documented files", Allowed(ToString(old.dir)) \subseteq Range(ev.files)),
      C("C18", "the stored network computes the same as the fitted one", ev.saved.net = ev.kept.net),
      C("C18", "the stored losses are the reported ones", ev.saved.loss = ev.kept.loss),
      C("C18", "the stored errors are the reported ones", ev.saved.error = ev.kept.error),
      C("C18", "the log tells parameters, then training and validation of each epoch",
        /\ Kinds2(new) = Tokens(ev.epochs)
        /\ \A i \in DOMAIN new : LineOK(new, i, ev)),
      C("C24", "refitting gives what an undisturbed fit gives", known => memo[ev.key].mem = ev.mem) }
    ELSE UNION {
      C("C18", "fitting succeeds", ev.fired # "" \/ ev.natural),
      C("C24", "the network is the earlier one", ev.mem.net = old.mem.net),
      C("C24", "the weights are the earlier ones", ev.mem.weights = old.mem.weights),
      C("C24", "the loss histories are the earlier ones", ev.mem.loss = old.mem.loss),
      C("C24", "the saved files are the earlier ones", fail = "train" => ev.disk = dir.files),
      C("C24", "the log only grows", ev.grown /\ PrefixOf(dir.log, ev.log)),
      C("C24", "the log is that of an interrupted fit",
        PrefixOf(Kinds2(new), Tokens(ev.epochs))) },
    C("C24", "other models are left alone", ev.others) }

Init == l = 1 /\ bad = <<>> /\ obj = <<>> /\ dirs = [d \in {1, 2} |-> NewDir] /\ memo = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "start" ->
            obj' = <<>> /\ dirs' = [d \in {1, 2} |-> NewDir] /\ memo' = <<>> /\ UNCHANGED bad
       [] ev.e = "ref" ->
            memo' = With(memo, ev.key, [rest |-> ev.rest, mem |-> ev.mem]) /\ UNCHANGED <<bad, obj, dirs>>
       [] ev.e = "new" ->
            /\ obj' = With(obj, ev.o, [dir |-> ev.dir, mem |-> ev.mem])
            /\ bad' = Note(bad, l, C("C18", "making a model changes no file", ev.quiet))
            /\ UNCHANGED <<dirs, memo>>
       [] ev.e = "fit" ->
            /\ bad' = Note(bad, l, FitFails(ev))
            /\ obj' = [obj EXCEPT ![ev.o].mem = ev.mem]
            /\ dirs' = [dirs EXCEPT ![obj[ev.o].dir] = [files |-> ev.disk, log |-> ev.log]]
            /\ memo' = IF ev.fired # "" \/ ev.exc # "" \/ ev.key \in DOMAIN memo THEN memo
                       ELSE With(memo, ev.key, [rest |-> ev.rest, mem |-> ev.mem])
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, obj, dirs, memo>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
