------------------------------- MODULE PenFit -------------------------------
(* Penalized least squares (C26), for one latent and two measurements, on an
   integer grid: from any start, a fit moves to better points until there is
   none next to it.  Error variances must not be negative: the criterion is
   one of |d|, which is what is returned.  With SIGNED, the criterion is one
   of d itself, and |d| is returned nevertheless (the defect that was in
   fit_penalized_lse); the result then needs not minimise anything.         *)
EXTENDS Integers
CONSTANTS SIGNED, MU
VARIABLES S, w1, w2, d1, d2, done
vars == <<S, w1, w2, d1, d2, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
Loss(s, a, b, c, e) ==
  Sq(s[1] - a * a - c) + Sq(s[2] - b * b - e) + 2 * Sq(s[3] - a * b) + MU * (Abs(a) + Abs(b))
Of(s, a, b, c, e) == IF SIGNED THEN Loss(s, a, b, c, e) ELSE Loss(s, a, b, Abs(c), Abs(e))
W == -2..2
D == -3..3
Near(x, R) == {y \in R : Abs(x - y) <= 1}
\* covariance matrices: the minors are not negative
Init == /\ S \in {s \in (0..4) \X (0..4) \X (-3..3) : s[1] * s[2] >= s[3] * s[3]}
        /\ w1 \in {-2, 1} /\ w2 = 1 /\ d1 \in {0, 2} /\ d2 \in {-1, 1} /\ done = FALSE
Better(a, b, c, e) == Of(S, a, b, c, e) < Of(S, w1, w2, d1, d2)
Improve ==
  /\ ~done /\ UNCHANGED <<S, done>>
  /\ \E a \in Near(w1, W), b \in Near(w2, W), c \in Near(d1, D), e \in Near(d2, D) :
       Better(a, b, c, e) /\ w1' = a /\ w2' = b /\ d1' = c /\ d2' = e
Finish ==
  /\ ~done /\ done' = TRUE
  /\ ~\E a \in Near(w1, W), b \in Near(w2, W), c \in Near(d1, D), e \in Near(d2, D) : Better(a, b, c, e)
  /\ d1' = Abs(d1) /\ d2' = Abs(d2) /\ UNCHANGED <<S, w1, w2>>
Next == Improve \/ Finish
Spec == Init /\ [][Next]_vars
\* what is returned minimises the criterion, among the points next to it
Minimises ==
  done => /\ d1 >= 0 /\ d2 >= 0
          /\ \A a \in Near(w1, W), b \in Near(w2, W), c \in Near(d1, 0..3), e \in Near(d2, 0..3) :
               Loss(S, a, b, c, e) >= Loss(S, w1, w2, d1, d2)
=============================================================================
