-------------------------------- MODULE Dist --------------------------------
(* Structural distances (C15).  A structure is a sequence of sets of
   measurements 1..n, one per latent.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Shared(S, u, v) == Cardinality({i \in DOMAIN S : u \in S[i] /\ v \in S[i]})
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0
  ELSE LET d == CHOOSE d \in D : TRUE IN f[d] + SumOver(f, D \ {d})
Sfd(S, T, n) ==
  SumOver([c \in (1..n) \X (1..n) |->
             (Shared(S, c[1], c[2]) - Shared(T, c[1], c[2])) * (Shared(S, c[1], c[2]) - Shared(T, c[1], c[2]))],
          (1..n) \X (1..n))
Ushd(S, T, n) ==
  Cardinality({c \in (1..n) \X (1..n) : c[1] < c[2] /\
                 (Shared(S, c[1], c[2]) > 0) # (Shared(T, c[1], c[2]) > 0)})
=============================================================================
