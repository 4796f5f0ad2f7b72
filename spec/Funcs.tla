------------------------------- MODULE Funcs --------------------------------
(* Functions of arguments (C25).  A caller owns argument objects, may call a
   function with them, overwrite them, and overwrite what it got.  Results
   are objects as well.  DESIGN:
     pure     every call computes its result anew
     memo     results are kept by content, and given out as copies
     ident    results are kept by object                      (refuted)
     shared   results are kept by content, and given out      (refuted)
     buffer   all results are written to one array            (refuted)
     inplace  the argument is worked on in place              (refuted)    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS DESIGN, LEN
VARIABLES heap, mine, held, kept, got, n
vars == <<heap, mine, held, kept, got, n>>
Args == {1, 2}
Content == {1, 2}
F(c) == 10 + c
Junk == 99
\* kept: the function's own memory, from keys to the addresses of results
Init == /\ heap = [a \in Args |-> 1] /\ mine = heap /\ held = {} /\ kept = <<>>
        /\ got = [want |-> 0, is |-> 0] /\ n = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh == 3 + Cardinality({a \in DOMAIN heap : a > 2})
Key(o) == IF DESIGN = "ident" THEN o ELSE IF DESIGN = "buffer" THEN 0 ELSE heap[o]
Give(o, a, v, k) ==  \* the call returns address a, which holds v
  /\ heap' = Put(IF DESIGN = "inplace" THEN [heap EXCEPT ![o] = Junk] ELSE heap, a, v)
  /\ held' = held \cup {[addr |-> a, val |-> v]} /\ kept' = k
  /\ got' = [want |-> F(mine[o]), is |-> v]
Call(o) ==
  /\ n < LEN /\ n' = n + 1 /\ UNCHANGED mine
  /\ LET hit == Key(o) \in DOMAIN kept
     IN CASE DESIGN \in {"pure", "inplace"} -> Give(o, Fresh, F(heap[o]), kept)
          [] DESIGN = "buffer" ->
               LET a == IF hit THEN kept[0] ELSE Fresh IN Give(o, a, F(heap[o]), Put(kept, 0, a))
          [] DESIGN = "memo" ->
               IF hit THEN Give(o, Fresh, kept[Key(o)], kept)
               ELSE Give(o, Fresh, F(heap[o]), Put(kept, Key(o), F(heap[o])))
          [] OTHER ->
               IF hit THEN Give(o, kept[Key(o)], heap[kept[Key(o)]], kept)
               ELSE Give(o, Fresh, F(heap[o]), Put(kept, Key(o), Fresh))
Write(o) ==
  /\ n < LEN /\ n' = n + 1
  /\ \E c \in Content : heap' = [heap EXCEPT ![o] = c] /\ mine' = [mine EXCEPT ![o] = c]
  /\ UNCHANGED <<held, kept, got>>
Scribble ==
  /\ n < LEN /\ n' = n + 1
  /\ \E r \in held : heap' = [heap EXCEPT ![r.addr] = Junk] /\ held' = {s \in held : s.addr # r.addr}
  /\ UNCHANGED <<mine, kept, got>>
Next == (\E o \in Args : Call(o) \/ Write(o)) \/ Scribble
Spec == Init /\ [][Next]_vars
Right == got.is = got.want
ArgumentsKept == \A o \in Args : heap[o] = mine[o]
ResultsKept == \A r \in held : heap[r.addr] = r.val
=============================================================================
