------------------------------ MODULE FitTrace ------------------------------
(* C11: recorded histories of Gaussian models.  A session starts with a line
   "pool" (structures: rows; graphs: neighbour lists; data: columns of
   integers, in units of 1 / unit).  Weights etc. are in 10^-4.
   "exact" lines are single fits of data that a structure fits exactly.     *)
EXTENDS Models, Graphs, TraceLib
VARIABLES l, bad, pool, m, memo
vars == <<l, bad, pool, m, memo>>
U == 10000

RECURSIVE SumP(_, _, _), SumV(_, _)
SumP(x, y, i) == IF i = 0 THEN 0 ELSE x[i] * y[i] + SumP(x, y, i - 1)
SumV(x, i) == IF i = 0 THEN 0 ELSE x[i] + SumV(x, i - 1)
\* sample covariance in 10^-4, floor
SampleCov(x, y, u) ==
  LET n == Len(x)
      s == n * SumP(x, y, n) - SumV(x, n) * SumV(y, n)
      den == n * (n - 1) * u * u
      \* in two steps, to stay below 2^31
      q == s \div den
      r == s % den
  IN q * U + (IF den < 100000 THEN (r * U) \div den ELSE ((r * 1000) \div den) * 10)
CovMatrix(D, u) == TLCEval([j \in DOMAIN D |-> TLCEval([h \in DOMAIN D |-> SampleCov(D[j], D[h], u)])])
MeanOf(x, u) == LET s == SumV(x, Len(x)) * U IN s \div (Len(x) * u)

\* a b / U without leaving 32 bits
MulU(a, b) == ((a \div 100) * b) \div 100 + ((a % 100) * b) \div U
RECURSIVE WW(_, _, _, _), WR(_, _, _, _, _)
WW(W, j, h, i) == IF i = 0 THEN 0 ELSE MulU(W[i][j], W[i][h]) + WW(W, j, h, i - 1)
\* what the model leaves of the covariances
Residual(ev, C) ==
  TLCEval([j \in DOMAIN C |-> TLCEval([h \in DOMAIN C |->
     C[j][h] - WW(ev.w, j, h, Len(ev.w)) - (IF j = h THEN ev.var[j] ELSE 0)])])
WR(w, R, j, h, dummy) == IF h = 0 THEN 0
  ELSE MulU(R[j][h], w[h]) + WR(w, R, j, h - 1, dummy)

\* a structure that explains a graph, as the heuristic has to give it
Explains(rows, G) ==
  LET sets == [i \in DOMAIN rows |-> Range(rows[i])]
      pa(v) == {i \in DOMAIN rows : v \in sets[i]}
  IN /\ Len(rows) = MaxIndepSize(G)
     /\ \A i \in DOMAIN rows : \E v \in sets[i] : pa(v) = {i}
     /\ \A v \in DOMAIN G : pa(v) # {}
     /\ \A v \in DOMAIN G : \A u \in G[v] : pa(u) \cap pa(v) # {}

\* a step of 10^-4 in each of the terms, and the optimizer's tolerance
Tol(ev) == IF ev.warned THEN 2500 ELSE 60
\* the largest weight; a step of 10^-4 in a weight counts as often
Largest(ev) ==
  LET all == UNION {{Abs(ev.w[i][j]) : j \in DOMAIN ev.w[i]} : i \in DOMAIN ev.w} \cup {0}
  IN (CHOOSE x \in all : \A y \in all : y <= x) \div U + 1
\* for some data and structures the squared distance has no minimum, but
\* decreases as the weights grow without bound
Diverges(ev) == ev.warned /\ \E i \in DOMAIN ev.w : \E j \in DOMAIN ev.w[i] : Abs(ev.w[i][j]) > 10 * U
Numbers(ev, D, u) ==
  LET C == CovMatrix(D, u)
      R == Residual(ev, C)
      big == Largest(ev)
      steps == IF big > 3 THEN Len(ev.w) * big ELSE 0
  IN IF Diverges(ev) THEN {} ELSE UNION {
    Clause("error means are the column means",
           \A j \in DOMAIN D : Abs(ev.mean[j] - MeanOf(D[j], u)) <= 2),
    Clause("diagonals of sample and model covariance coincide",
           \A j \in DOMAIN D : Abs(R[j][j]) <= 20 + 2 * steps + (IF ev.warned THEN 200 ELSE 0)),
    Clause("stationary point of the squared distance",
      \A i \in DOMAIN ev.rows : \A j \in Range(ev.rows[i]) :
        Abs(WR(ev.w[i], R, j, Len(D), 0)) <= Tol(ev) + Len(D) * steps * big) }

Shape(ev, D) ==
  /\ ev.shape
  /\ Len(ev.rows) = Len(ev.w) /\ Len(ev.var) = Len(D) /\ Len(ev.mean) = Len(D)

GraphIsSimple(G) == IsSymmetric(G)
FitFails(ev) ==
  LET D == pool.data[ev.x]
      u == pool.unit
      was == m[ev.o]
  IN IF ~Shape(ev, D) THEN {"a weight per latent and measurement, a mean and a variance per measurement"}
  ELSE UNION {
    Clause("fitting returns the model", ev.self),
    Clause("weights are zero off the structure", ev.offzero),
    Clause("structure is that of the model",
      IF was.biadj # "none" THEN ev.rows = was.rows
      ELSE Explains(ev.rows, GraphOf(ev.udg))),
    Clause("given dependence graph is kept",
      was.udg # "none" => GraphOf(ev.udg) = was.graph),
    Numbers(ev, D, u),
    Clause("fits repeat exactly",
      \A e \in memo : (e[1] = ev.rows /\ e[2] = ev.x) => e[3] = ev.dig) }

Shared(ev) == UNION {
  Clause("other models are left alone", ev.others),
  Clause("data and arguments are left alone", ev.kept) }

OpFails(ev) ==
  IF ev.exc # "" THEN {ev.op \o " raised " \o ev.exc}
  ELSE Shared(ev) \cup
    CASE ev.op = "new" -> {}
      [] ev.op = "fit" -> FitFails(ev)
      [] ev.op = "sample" -> UNION {
           Clause("a row per observation and a column per measurement", ev.shape),
           Clause("sampling leaves the model alone", ev.own) }

Exact(ev) ==
  LET C == CovMatrix(ev.data, ev.unit)
  IN IF ev.exc # "" THEN {"fit raised " \o ev.exc}
  ELSE IF ~Shape(ev, ev.data) THEN {"a weight per latent and measurement"}
  ELSE LET R == Residual(ev, C) IN UNION {
    Clause("structure is recovered",
      Len(ev.rows) = Len(ev.true) /\ SetOfSets(ev.rows) = SetOfSets(ev.true)),
    Clause("covariances are recovered", \A j, h \in DOMAIN C : Abs(R[j][h]) <= 30) }

Blank == [o \in OBJ |-> [made |-> FALSE, biadj |-> "none", udg |-> "none", params |-> "none",
                         rows |-> <<>>, graph |-> <<>>]]
WithValues(r, rows, graph) ==
  [made |-> r.made, biadj |-> r.biadj, udg |-> r.udg, params |-> r.params,
   rows |-> rows, graph |-> graph]
After(ev) ==
  LET was == m[ev.o]
      base == [made |-> was.made, biadj |-> was.biadj, udg |-> was.udg, params |-> was.params]
  IN CASE ev.exc # "" -> was
    [] ev.op = "new" -> WithValues(Made(ev.kind, ev.x),
         IF ev.kind \in {"structure", "both"} THEN pool.structures[ev.x] ELSE <<>>,
         IF ev.kind \in {"graph", "both"} THEN GraphOf(pool.graphs[ev.x]) ELSE <<>>)
    [] ev.op = "fit" -> WithValues(Fitted(base, ev.x),
         IF was.biadj # "none" THEN was.rows ELSE ev.rows,
         IF was.biadj # "none" \/ was.udg # "none" THEN was.graph ELSE GraphOf(ev.udg))
    [] ev.op = "sample" -> was

Init == l = 1 /\ bad = <<>> /\ pool = <<>> /\ m = Blank /\ memo = {}
Step ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "pool" -> pool' = ev /\ m' = Blank /\ memo' = {} /\ UNCHANGED bad
       [] ev.e = "exact" -> bad' = Note(bad, l, Exact(ev)) /\ UNCHANGED <<pool, m, memo>>
       [] ev.e = "op" ->
            /\ bad' = Note(bad, l, OpFails(ev))
            /\ m' = [m EXCEPT ![ev.o] = After(ev)]
            /\ memo' = IF ev.op = "fit" /\ ev.exc = "" THEN memo \cup {<<ev.rows, ev.x, ev.dig>>} ELSE memo
            /\ UNCHANGED pool
Done == l = Len(Trace) + 1 /\ l' = l + 1 /\ UNCHANGED <<bad, pool, m, memo>> /\ Report(bad)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
