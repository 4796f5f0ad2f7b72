-------------------------------- MODULE Pen ---------------------------------
(* The life cycle of penalized estimators (C20): a model has the estimates of
   its most recent fit by each method, "" if there was none.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS OBJ, LEN, X, HIST
VARIABLES est, h, n, last
vars == <<est, h, n, last>>
Methods == {"mle", "lse"}
Invalid == {"MLE", "ls", ""}
None == [mle |-> "", lse |-> "", last |-> ""]
AfterFit(e, method, what) == [e EXCEPT ![method] = what, !.last = method]
\* what sampling gives: the estimates it is with, or ValueError
SampleOf(e, method) ==
  IF method \notin Methods \/ e[method] = "" THEN "ValueError" ELSE e[method]

Rec(r) == h' = (IF HIST THEN Append(h, r) ELSE <<>>) /\ n' = n + 1 /\ last' = r
Init == est = [o \in OBJ |-> None] /\ h = <<>> /\ n = 0
        /\ last = [op |-> "", o |-> 0, method |-> "", x |-> 0]
Fit == \E o \in OBJ, k \in Methods, x \in X :
         /\ est' = [est EXCEPT ![o] = AfterFit(@, k, k \o ToString(x) \o "@" \o ToString(n))]
         /\ Rec([op |-> "fit", o |-> o, method |-> k, x |-> x])
FitInvalid == \E o \in OBJ, k \in Invalid :
         UNCHANGED est /\ Rec([op |-> "fit", o |-> o, method |-> k, x |-> 1])
Sample == \E o \in OBJ, k \in Methods \cup Invalid :
         UNCHANGED est /\ Rec([op |-> "sample", o |-> o, method |-> k, x |-> 2])
Validate == \E o \in OBJ, k \in Methods, x \in X :
         est[o].last # "" /\ UNCHANGED est /\ Rec([op |-> "validate", o |-> o, method |-> k, x |-> x])
Next == n < LEN /\ (Fit \/ FitInvalid \/ Sample \/ Validate)
Spec == Init /\ [][Next]_vars
Emit == (HIST /\ n = LEN) => PrintT("SCN " \o ToJson(h))
OthersKeep == [][\A o \in OBJ, k \in Methods :
   (o # last'.o \/ k # last'.method \/ last'.op # "fit") => est'[o][k] = est[o][k]]_vars
SamplesAreFits == \A o \in OBJ, k \in Methods :
   SampleOf(est[o], k) = "ValueError" <=> est[o][k] = ""
=============================================================================
