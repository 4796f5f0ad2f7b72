------------------------------ MODULE ModelOps ------------------------------
(* Histories of constructing, fitting and sampling, for FitTrace; checked as
   a design with HIST = FALSE.                                              *)
EXTENDS Models, Json
CONSTANTS LEN, X, HIST
VARIABLES m, h, n, last
vars == <<m, h, n, last>>
Note(r) == h' = (IF HIST THEN Append(h, r) ELSE <<>>) /\ n' = n + 1 /\ last' = r
Init == m = [o \in OBJ |-> NoModel] /\ n = 0 /\ h = <<>> /\ last = <<>>
New == \E o \in OBJ, k \in {"structure", "graph", "both", "nothing"}, x \in X :
         /\ k = "nothing" => x = 1
         /\ m' = [m EXCEPT ![o] = Made(k, x)] /\ Note([op |-> "new", o |-> o, kind |-> k, x |-> x])
Fit == \E o \in OBJ, x \in X :
         m[o].made /\ m' = [m EXCEPT ![o] = Fitted(@, x)] /\ Note([op |-> "fit", o |-> o, kind |-> "", x |-> x])
Sample == \E o \in OBJ, x \in X :
         m[o].params # "none" /\ UNCHANGED m /\ Note([op |-> "sample", o |-> o, kind |-> "", x |-> x])
Next == n < LEN /\ (New \/ Fit \/ Sample)
Spec == Init /\ [][Next]_vars
Emit == (HIST /\ n = LEN) => PrintT("SCN " \o ToJson(h))
\* a fit is of the model's structure, and structures never change by fitting
FitOfStructure == \A o \in OBJ : m[o].params # "none" =>
  \E x \in X : m[o].params = "lsq(" \o m[o].biadj \o ", D" \o ToString(x) \o ")"
OnlyOne == [][\A o \in OBJ : o # last'.o => m'[o] = m[o]]_vars
StructureStays == [][\A o \in OBJ : (m[o].biadj # "none" /\ last'.op # "new") => m'[o].biadj = m[o].biadj]_vars
=============================================================================
