------------------------------- MODULE Alloc -------------------------------
(* The tracking allocator as a ledger. S is the whole state: the blocks it   *)
(* currently owns (id -> size and owner) and its statistics. Owner 0 is the  *)
(* client itself, other owners are containers that use the allocator.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
VARIABLES S, up, dead
vars == <<S, up, dead>>

Empty == [blk |-> <<>>, a |-> 0, r |-> 0, f |-> 0, cur |-> 0, freed |-> 0]
AllocInit == S = Empty /\ up = TRUE /\ dead = FALSE

Ids == DOMAIN S.blk
IdsOf(s) == DOMAIN s.blk
Without(fn, x) == [i \in (DOMAIN fn) \ {x} |-> fn[i]]
With(fn, x, v) == [i \in (DOMAIN fn) \cup {x} |-> IF i = x THEN v ELSE fn[i]]
Min2(x, y) == IF x < y THEN x ELSE y

(* ------------------------- effects on the ledger ------------------------- *)
DoAlloc(s, id, n, o) == [s EXCEPT !.blk = With(@, id, [n |-> n, o |-> o]), !.a = @ + 1, !.cur = @ + n]
DoRealloc(s, id, n) ==
    LET old == s.blk[id].n IN
    [s EXCEPT !.blk = With(@, id, [n |-> n, o |-> s.blk[id].o]), !.r = @ + 1,
              !.cur = @ + n - old, !.freed = @ + (IF n < old THEN old - n ELSE 0)]
DoFree(s, id) == [s EXCEPT !.blk = Without(@, id), !.f = @ + 1, !.cur = @ - s.blk[id].n, !.freed = @ + s.blk[id].n]

(* --------------------------------- calls --------------------------------- *)
AllocPre(n) == n > 0
Refuse == dead' = TRUE /\ UNCHANGED <<S, up>>
Alloc(id, n, o) == id \notin Ids /\ S' = DoAlloc(S, id, n, o) /\ UNCHANGED <<up, dead>>
Realloc(id, n)  == id \in Ids /\ S' = DoRealloc(S, id, n) /\ UNCHANGED <<up, dead>>
Free(id)        == id \in Ids /\ S' = DoFree(S, id) /\ UNCHANGED <<up, dead>>
Destroy         == up /\ up' = FALSE /\ S' = Empty /\ UNCHANGED dead

(* -------------------------------- properties ----------------------------- *)
TypeOK == \A i \in Ids : S.blk[i].n > 0
CurInv   == S.cur = MapThenSumSet(LAMBDA i : S.blk[i].n, Ids)
CountInv == S.a - S.f = Cardinality(Ids)
FreedInv == S.freed >= 0 /\ S.cur >= 0
=============================================================================
