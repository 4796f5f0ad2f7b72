------------------------------ MODULE Decoder -------------------------------
(* The decoder (C19): L latents are fully connected to one block of W units
   per measurement, H further layers connect units of the same block only, and
   the output of a measurement is read from its block; once for the means and
   once for the variances.  A change of a latent or of one weight is
   propagated layer by layer; MASKED = FALSE is the wrong variant in which
   hidden layers are fully connected.                                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxM, MaxL, MaxH, MaxW, MASKED
VARIABLES m, L, H, W, what, layer, dirty
vars == <<m, L, H, W, what, layer, dirty>>
Units == 1..(m * W)
Block(u) == ((u - 1) \div W) + 1
\* is there a connection from unit u of a layer to unit v of the next one?
\* layer 0 are the latents, 1 to H + 1 hidden ones, H + 2 the outputs
Size(i) == IF i = 0 THEN 1..L ELSE IF i = H + 2 THEN 1..m ELSE Units
Conn(i, u, v) ==
  CASE i = 0 -> TRUE
    [] i = H + 1 -> Block(u) = v
    [] OTHER -> ~MASKED \/ Block(u) = Block(v)
\* what changes: a latent, a weight into layer i, or a bias of layer i
Init ==
  /\ m \in 1..MaxM /\ L \in 1..MaxL /\ H \in 0..MaxH /\ W \in 1..MaxW
  /\ \/ \E u \in 1..L : what = <<"latent", u>> /\ layer = 0 /\ dirty = {u}
     \/ \E i \in 0..(H + 1) : \E u \in Size(i), v \in Size(i + 1) :
          what = <<"weight", i, u, v>> /\ layer = i + 1
          /\ dirty = (IF Conn(i, u, v) THEN {v} ELSE {})
     \/ \E i \in 1..(H + 2) : \E v \in Size(i) :
          what = <<"bias", i, v>> /\ layer = i /\ dirty = {v}
Pass == /\ layer < H + 2 /\ layer' = layer + 1
        /\ dirty' = {v \in Size(layer + 1) : \E u \in dirty : Conn(layer, u, v)}
        /\ UNCHANGED <<m, L, H, W, what>>
Next == Pass
Spec == Init /\ [][Next]_vars
OneMeasurement == (layer = H + 2 /\ what[1] # "latent") => Cardinality(dirty) <= 1
AllLatents == (layer = H + 2 /\ what[1] = "latent") => dirty = 1..m
\* masked weights influence nothing, all others something
NoneDead == (layer = H + 2 /\ dirty = {}) => what[1] = "weight" /\ ~Conn(what[2], what[3], what[4])
=============================================================================
