------------------------------- MODULE Models -------------------------------
(* Several Gaussian models in one process (C11).  A model has a structure and
   a dependence graph (given, or 0: to be learned), and after a fit
   parameters.  Values are abstract: structure s, graph g, data d; what is
   learned from them are terms.                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS OBJ
NoModel == [made |-> FALSE, biadj |-> "none", udg |-> "none", params |-> "none"]
\* the state of a model after an operation on it
Made(kind, x) ==
  [made |-> TRUE, params |-> "none",
   biadj |-> IF kind \in {"structure", "both"} THEN "S" \o ToString(x) ELSE "none",
   udg |-> IF kind \in {"graph", "both"} THEN "G" \o ToString(x) ELSE "none"]
Fitted(m, x) ==
  LET udg == IF m.biadj # "none" \/ m.udg # "none" THEN m.udg ELSE "estimate(D" \o ToString(x) \o ")"
      biadj == IF m.biadj # "none" THEN m.biadj ELSE "heuristic(" \o udg \o ")"
  IN [m EXCEPT !.udg = udg, !.biadj = biadj,
               !.params = "lsq(" \o biadj \o ", D" \o ToString(x) \o ")"]
=============================================================================
