------------------------------- MODULE DistMC -------------------------------
EXTENDS Dist, TLC
CONSTANT N, K
VARIABLES S, T
Structs == UNION {[1..k -> SUBSET (1..N)] : k \in 0..K}
Init == S \in Structs /\ T \in Structs
Next == UNCHANGED <<S, T>>
Spec == Init /\ [][Next]_<<S, T>>
Rev(A) == [i \in DOMAIN A |-> A[Len(A) + 1 - i]]
Symmetric == Sfd(S, T, N) = Sfd(T, S, N) /\ Ushd(S, T, N) = Ushd(T, S, N)
OrderFree == Sfd(Rev(S), T, N) = Sfd(S, T, N) /\ Ushd(Rev(S), T, N) = Ushd(S, T, N)
Vanish == S = T => Sfd(S, T, N) = 0 /\ Ushd(S, T, N) = 0
\* dependences that differ show in the shared counts
Finer == Sfd(S, T, N) >= 2 * Ushd(S, T, N)
=============================================================================
