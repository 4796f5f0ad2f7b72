-------------------------------- MODULE Pool --------------------------------
(* Design of the pairwise tests in worker processes (C12): tasks 1..T are
   handed out in chunks, workers finish them in any order, and results are
   filled in pair by pair in the order of the tasks.  With ORDERED = FALSE,
   results are filled in as they come, which breaks the property.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, CHUNK, WORKERS, ORDERED
VARIABLES next,     \* first task of the next chunk to be handed out
          busy,     \* worker -> chunk it works on (a sequence of tasks)
          ready,    \* finished chunks that are not yet delivered
          filled    \* the results in the order in which they are filled in
vars == <<next, busy, ready, filled>>

ChunkAt(i) == [j \in 1..(IF i + CHUNK - 1 <= T THEN CHUNK ELSE T - i + 1) |-> i + j - 1]
Init == next = 1 /\ busy = [w \in WORKERS |-> <<>>] /\ ready = {} /\ filled = <<>>
HandOut == \E w \in WORKERS :
  /\ next <= T /\ busy[w] = <<>>
  /\ busy' = [busy EXCEPT ![w] = ChunkAt(next)]
  /\ next' = next + CHUNK
  /\ UNCHANGED <<ready, filled>>
Finish == \E w \in WORKERS :
  /\ busy[w] # <<>>
  /\ ready' = ready \cup {busy[w]}
  /\ busy' = [busy EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<next, filled>>
Deliver == \E c \in ready :
  /\ ORDERED => c[1] = Len(filled) + 1
  /\ filled' = filled \o c
  /\ ready' = ready \ {c}
  /\ UNCHANGED <<next, busy>>
Next == HandOut \/ Finish \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the i-th pair gets the result of the i-th task, whatever the timing
PairByPair == \A i \in DOMAIN filled : filled[i] = i
NoneLost == <>(Len(filled) = T)
=============================================================================
