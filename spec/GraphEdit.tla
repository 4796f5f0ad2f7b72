------------------------------ MODULE GraphEdit -----------------------------
(* Design of editing and copying graphs (C21): adjacency matrices that edits
   write cell by cell, and the number of edges that is kept next to them.
   Objects: 0 is the user's graph, the others are copies of it.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT N, OBJ, LEN
VARIABLES adj, num, want, h
vars == <<adj, num, want, h>>
V == 1..N
Cells == V \X V
Off == {c \in Cells : c[1] # c[2]}
Upper(A) == {c \in Cells : c[1] < c[2] /\ A[c] = 1}
Sets == {S \in SUBSET Off : Cardinality(S) <= 2}
NONE == <<>>

Init == /\ adj = [o \in OBJ |-> NONE] @@ (0 :> [c \in Cells |-> 0])
        /\ num = [o \in OBJ |-> 0] @@ (0 :> 0)
        /\ want = [o \in OBJ |-> {}] @@ (0 :> {})
        /\ h = 0
Write(o, S, val) ==
  LET A == [c \in Cells |-> IF c \in S \/ <<c[2], c[1]>> \in S THEN val ELSE adj[o][c]]
  IN /\ adj' = [adj EXCEPT ![o] = A]
     /\ num' = [num EXCEPT ![o] = Cardinality(Upper(A))]
     /\ h' = h + 1
Undirected(S) == {c \in Cells : c[1] < c[2] /\ (c \in S \/ <<c[2], c[1]>> \in S)}
Add == \E o \in DOMAIN adj, S \in Sets :
         adj[o] # NONE /\ Write(o, S, 1) /\ want' = [want EXCEPT ![o] = @ \cup Undirected(S)]
Remove == \E o \in DOMAIN adj, S \in Sets :
         adj[o] # NONE /\ Write(o, S, 0) /\ want' = [want EXCEPT ![o] = @ \ Undirected(S)]
Copy == \E o \in DOMAIN adj, p \in OBJ :
         /\ o # p /\ adj[o] # NONE
         /\ adj' = [adj EXCEPT ![p] = adj[o]] /\ num' = [num EXCEPT ![p] = num[o]]
         /\ want' = [want EXCEPT ![p] = want[o]]
         /\ h' = h + 1
Next == Add \/ Remove \/ Copy
Spec == Init /\ [][Next]_vars
Bound == h <= LEN

Live == {o \in DOMAIN adj : adj[o] # NONE}
Symmetric == \A o \in Live : \A c \in Cells : adj[o][c] = adj[o][<<c[2], c[1]>>]
AsEdited == \A o \in Live : Upper(adj[o]) = want[o]
Counted == \A o \in Live : num[o] = Cardinality(want[o])
NoLoops == \A o \in Live : \A v \in V : adj[o][<<v, v>>] = 0
=============================================================================
