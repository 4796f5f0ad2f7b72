---------------------------- MODULE ParamsTrace -----------------------------
(* C07: recorded random models.  given: the structure asked for (rows) or
   <<>> for a random one with asked.n measurements and asked.k latents;
   rows: that of the model; offzero: weights off the structure are exactly 0.
   A session ends with a line "signs" about all its models.
   "again" lines have 64 models of one structure, drawn one after another:
   w (its weights in a row), var, mean for each of them.                    *)
EXTENDS Params, TraceLib, SequencesExt
VARIABLES l, bad, tally
Edges(rows) == UNION {{<<i, j>> : j \in Range(rows[i])} : i \in DOMAIN rows}
AsSets(rows) == [i \in DOMAIN rows |-> Range(rows[i])]

ModelFails(ev) ==
  IF ev.exc # "" THEN {"model raised " \o ev.exc}
  ELSE IF ~ev.shape THEN {"a weight per latent and measurement"}
  ELSE UNION {
    IF ev.isgiven THEN
      Clause("keeps the given structure", AsSets(ev.rows) = AsSets(ev.given) /\ ev.m = ev.asked.n)
    ELSE UNION {
      Clause("random structure as asked for",
             ev.m = ev.asked.n /\ (ev.asked.k > 0 => Len(ev.rows) = ev.asked.k)),
      Clause("random structure has no childless latent", \A i \in DOMAIN ev.rows : ev.rows[i] # <<>>),
      Clause("random structure has no orphans",
             \A j \in 1..ev.m : \E i \in DOMAIN ev.rows : j \in Range(ev.rows[i])) },
    Clause("structure given is left unchanged", ev.unchanged),
    Clause("weights exactly on the edges, of magnitudes in [0.5, 2]",
           ev.offzero /\ WeightsFit(ev.w, Edges(ev.rows))),
    Clause("an error variance in [0.5, 2] per measurement", VariancesFit(ev.var, ev.m)),
    Clause("an error mean in [-2, 2] per measurement", MeansFit(ev.mean, ev.m)) }

Zero == [wpos |-> 0, wneg |-> 0, mpos |-> 0, mneg |-> 0]
CountIf(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
Pos(x) == x > 0
Neg(x) == x < 0
RECURSIVE SumCount(_, _, _)
SumCount(W, i, pos) ==
  IF i = 0 THEN 0
  ELSE (IF pos THEN CountIf(W[i], Pos) ELSE CountIf(W[i], Neg)) + SumCount(W, i - 1, pos)
Add(t, ev) ==
  [wpos |-> t.wpos + SumCount(ev.w, Len(ev.w), TRUE),
   wneg |-> t.wneg + SumCount(ev.w, Len(ev.w), FALSE),
   mpos |-> t.mpos + CountIf(ev.mean, Pos), mneg |-> t.mneg + CountIf(ev.mean, Neg)]
\* with fair signs, missing one in 60 has probability 2^-60
SignsFail(t) ==
  UNION {Clause("both signs of weights", t.wpos + t.wneg < 60 \/ (t.wpos > 0 /\ t.wneg > 0)),
         Clause("both signs of means", t.mpos + t.mneg < 60 \/ (t.mpos > 0 /\ t.mneg > 0))}

\* every quantity is drawn anew, on its own, and takes both signs and both
\* halves of its range: otherwise with probability 2^-63 each
Again(ev) ==
  LET T == DOMAIN ev.w
      Varies(V, P(_)) == \A p \in DOMAIN V[1] : \E t, s \in T : P(V[t][p]) /\ ~P(V[s][p])
      Apart(V, P(_, _)) == \A p, q \in DOMAIN V[1] : p < q =>
                               \E t, s \in T : P(V[t][p], V[t][q]) /\ ~P(V[s][p], V[s][q])
      signs(a, b) == (a > 0) = (b > 0)
      sizes(a, b) == Abs(a) < Abs(b)
      upper(x) == 4 * Abs(x) > 5 * Unit
      outer(x) == Abs(x) > Unit
  IN IF ev.exc # "" THEN {"model raised " \o ev.exc}
  ELSE IF ~ev.shape THEN {"a weight per latent and measurement"}
  ELSE UNION {
    Clause("signs of weights vary", Varies(ev.w, Pos)),
    Clause("signs of means vary", Varies(ev.mean, Pos)),
    Clause("signs of weights vary independently", Apart(ev.w, signs)),
    Clause("signs of means vary independently", Apart(ev.mean, signs)),
    Clause("magnitudes vary",
           Varies(ev.w, upper) /\ Varies(ev.var, upper) /\ Varies(ev.mean, outer)),
    Clause("magnitudes vary independently",
           Apart(ev.w, sizes) /\ Apart(ev.var, sizes) /\ Apart(ev.mean, sizes)),
    Clause("weights vary independently of variances and means",
      /\ \A p \in DOMAIN ev.w[1], q \in DOMAIN ev.var[1] :
           \E t, s \in T : sizes(ev.w[t][p], ev.var[t][q]) /\ ~sizes(ev.w[s][p], ev.var[s][q])
      /\ \A p \in DOMAIN ev.w[1], q \in DOMAIN ev.mean[1] :
           \E t, s \in T : signs(ev.w[t][p], ev.mean[t][q]) /\ ~signs(ev.w[s][p], ev.mean[s][q])) }

\* 60 signs in a row are not all equal, in any order of the weights
NoLongRun(s) == \A i \in 1..(Len(s) - 59) : \E j \in (i + 1)..(i + 59) : (s[j] > 0) # (s[i] > 0)
LongFails(ev) ==
  LET nz(x) == x # 0
      w == TLCEval(SelectSeq(FlattenSeq(ev.w), nz))
  IN Clause("signs vary within a model", NoLongRun(w) /\ NoLongRun(ev.mean))

Fails(ev) ==
  CASE ev.e = "again" -> Again(ev)
    [] ev.e = "model" /\ ev.exc = "" /\ ev.shape -> ModelFails(ev) \cup LongFails(ev)
    [] ev.e = "model" -> ModelFails(ev)
    [] ev.e = "vae" -> Clause("NotImplementedError for VAE", ev.exc = "NotImplementedError")
    [] ev.e = "unknown" -> Clause("ValueError for an unknown parameterization", ev.exc = "ValueError")
    [] ev.e = "signs" -> SignsFail(tally)
Init == l = 1 /\ bad = <<>> /\ tally = Zero
Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ bad' = Note(bad, l, Fails(Trace[l]))
        /\ tally' = CASE Trace[l].e = "signs" -> Zero
                      [] Trace[l].e = "model" /\ Trace[l].exc = "" /\ Trace[l].shape -> Add(tally, Trace[l])
                      [] OTHER -> tally
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, tally>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_<<l, bad, tally>>
=============================================================================
