-------------------------------- MODULE Vec --------------------------------
(* vt_vec_t and vt_plist_t: growable sequences of opaque values.             *)
(*                                                                           *)
(* One action per public call (the call's return is its linearization        *)
(* point). Several containers live side by side in numbered slots, so that   *)
(* an operation on one that disturbs another is a violation as well.         *)
(*   seq : contents, cap : capacity, sl : iteration slider                   *)
(* Capacities after implicit growth are deliberately left open: any capacity *)
(* that holds the contents is allowed (parameter nc of the growing actions). *)
(* A call outside its contract must not return: action Refuse.               *)
EXTENDS SeqOps

CONSTANT Slots

VARIABLES obj,      \* Slots -> [live, seq, cap, sl]
          dead      \* the process was terminated by a refused call

vars == <<obj, dead>>

None == [live |-> FALSE, seq |-> <<>>, cap |-> 0, sl |-> 0]

VecInit == obj = [o \in Slots |-> None] /\ dead = FALSE

Live(o)  == obj[o].live
S(o)     == obj[o].seq
L(o)     == Len(obj[o].seq)
Put(o, s, c) == /\ obj' = [obj EXCEPT ![o].seq = s, ![o].cap = c]
                /\ UNCHANGED dead
Keep == UNCHANGED vars

(* capacity after an operation that needs room for n elements: unchanged     *)
(* while there is space, otherwise anything that is large enough             *)
GrowOK(o, n, nc) == IF n <= obj[o].cap THEN nc = obj[o].cap ELSE nc >= n

(* ------------------------------ contracts ------------------------------- *)
CreatePre(n, esz)  == n > 0 /\ esz > 0
IndexPre(o, at)    == at < L(o)
ReservePre(n)      == n > 0
ResizePre(n)       == n > 0
(* shrinking or duplicating an empty container: the library has no           *)
(* zero-capacity containers; both outcomes are left open                     *)

(* ------------------------------- actions -------------------------------- *)
Create(o, n, esz) ==
    /\ ~Live(o) /\ CreatePre(n, esz)
    /\ obj' = [obj EXCEPT ![o] = [live |-> TRUE, seq |-> <<>>, cap |-> n, sl |-> 0]]
    /\ UNCHANGED dead
Destroy(o) == Live(o) /\ obj' = [obj EXCEPT ![o] = None] /\ UNCHANGED dead
Dup(o, d, nc) ==
    /\ Live(o) /\ ~Live(d) /\ nc >= L(o)
    /\ obj' = [obj EXCEPT ![d] = [live |-> TRUE, seq |-> S(o), cap |-> nc, sl |-> 0]]
    /\ UNCHANGED dead

PushBack(o, v, nc)   == Live(o) /\ GrowOK(o, L(o) + 1, nc) /\ Put(o, Append(S(o), v), nc)
PushFront(o, v, nc)  == Live(o) /\ GrowOK(o, L(o) + 1, nc) /\ Put(o, <<v>> \o S(o), nc)
Insert(o, v, at, nc) == Live(o) /\ IndexPre(o, at) /\ GrowOK(o, L(o) + 1, nc)
                        /\ Put(o, InsertAt(S(o), at, v), nc)
PopRet(o)            == IF L(o) = 0 THEN "NULL" ELSE LastOf(S(o))
Pop(o)               == Live(o) /\ Put(o, IF L(o) = 0 THEN S(o) ELSE Front1(S(o)), obj[o].cap)
Set(o, v, at)        == Live(o) /\ IndexPre(o, at) /\ Put(o, SetAt(S(o), at, v), obj[o].cap)
Get(o, at)           == Live(o) /\ IndexPre(o, at) /\ Keep
GetRet(o, at)        == At(S(o), at)
RemoveS(o, at)       == Live(o) /\ IndexPre(o, at) /\ Put(o, RemoveStable(S(o), at), obj[o].cap)
RemoveF(o, at)       == Live(o) /\ IndexPre(o, at) /\ Put(o, RemoveFast(S(o), at), obj[o].cap)
RemElemRet(o, v)     == FindFirst(S(o), v)
RemoveElem(o, v, fast) ==
    /\ Live(o)
    /\ LET k == FindFirst(S(o), v) IN
       IF k < 0 THEN Keep
       ELSE Put(o, IF fast THEN RemoveFast(S(o), k) ELSE RemoveStable(S(o), k), obj[o].cap)
Find(o, v)           == Live(o) /\ Keep
FindRet(o, v)        == FindFirst(S(o), v)
Clear(o)             == Live(o) /\ Put(o, <<>>, obj[o].cap)
Reserve(o, n)        == Live(o) /\ ReservePre(n) /\ Put(o, S(o), obj[o].cap + n)
Shrink(o)            == Live(o) /\ Put(o, S(o), L(o))
(* a shrink of an empty container may keep any capacity or be refused *)
ShrinkEmpty(o, nc)   == Live(o) /\ L(o) = 0 /\ nc <= obj[o].cap /\ Put(o, S(o), nc)
(* new elements exposed by a growing resize have unspecified values (tail)   *)
Resize(o, n, tail)   == /\ Live(o) /\ ResizePre(n)
                        /\ Len(tail) = n - Min2(n, L(o))
                        /\ Put(o, Take(S(o), Min2(n, L(o))) \o tail, n)

(* iteration: a shared slider; NULL at the end, which also rewinds *)
SlideDone(o)     == obj[o].sl >= L(o)
SlideFrontRet(o) == IF SlideDone(o) THEN "NULL" ELSE At(S(o), obj[o].sl)
SlideBackRet(o)  == IF SlideDone(o) THEN "NULL" ELSE At(S(o), L(o) - 1 - obj[o].sl)
Slide(o)         == /\ Live(o)
                    /\ obj' = [obj EXCEPT ![o].sl = IF SlideDone(o) THEN 0 ELSE @ + 1]
                    /\ UNCHANGED dead
SlideReset(o)    == Live(o) /\ obj' = [obj EXCEPT ![o].sl = 0] /\ UNCHANGED dead

(* apply: func is called once per element, in order, with index 0..len-1;    *)
(* the callback may overwrite the element (vals, cyclically; <<>> = leaves)  *)
ApplyVisits(o)     == S(o)
Apply(o, vals)     == Live(o) /\ IF vals = <<>> THEN Keep
                      ELSE Put(o, [i \in 1..L(o) |-> vals[((i - 1) % Len(vals)) + 1]], obj[o].cap)

(* many calls taken as one step (long histories): n pushes, n pops, n slides *)
PushMany(o, vs, back, nc) == /\ Live(o) /\ GrowOK(o, L(o) + Len(vs), nc)
                             /\ Put(o, IF back THEN S(o) \o vs ELSE Rev(vs) \o S(o), nc)
PopManyRet(o, n) == [i \in 1..n |-> IF i <= L(o) THEN S(o)[L(o) + 1 - i] ELSE "NULL"]
PopMany(o, n)    == Live(o) /\ Put(o, Take(S(o), L(o) - Min2(n, L(o))), obj[o].cap)
(* the slider visits 0, 1 .. L (the end, which answers NULL) and starts again *)
WalkPos(o, i)    == (Min2(obj[o].sl, L(o)) + i) % (L(o) + 1)
WalkRet(o, n, front) == [i \in 1..n |-> LET p == WalkPos(o, i - 1) IN
                           IF p = L(o) THEN "NULL" ELSE At(S(o), IF front THEN p ELSE L(o) - 1 - p)]
WalkMany(o, n)   == /\ Live(o) /\ obj' = [obj EXCEPT ![o].sl = WalkPos(o, n)] /\ UNCHANGED dead

Refuse == dead' = TRUE /\ UNCHANGED obj

(* ------------------------------ properties ------------------------------ *)
TypeOK  == \A o \in Slots : obj[o].live \in BOOLEAN /\ obj[o].cap \in Nat /\ obj[o].sl \in Nat
CapInv  == \A o \in Slots : Live(o) => L(o) <= obj[o].cap
DeadSlotsEmpty == \A o \in Slots : ~Live(o) => obj[o] = None
(* laws of the sequence semantics, checked in every reachable state          *)
LawPushPop == \A o \in Slots : Live(o) =>
    /\ L(o) > 0 => Append(Front1(S(o)), LastOf(S(o))) = S(o)
    /\ \A i \in 0..(L(o) - 1) :
        /\ RemoveStable(InsertAt(S(o), i, "q"), i) = S(o)
        /\ IsPermOf(RemoveFast(S(o), i), RemoveStable(S(o), i))
        /\ Take(RemoveFast(S(o), i), i) = Take(S(o), i)
        /\ GetRet(o, i) = At(S(o), i)
(* one walk of n calls is n single slides *)
LawWalk == \A o \in Slots : Live(o) => \A n \in 1..4 :
    /\ WalkRet(o, 1, TRUE) = <<SlideFrontRet(o)>> /\ WalkRet(o, 1, FALSE) = <<SlideBackRet(o)>>
    /\ WalkPos(o, 1) = (IF SlideDone(o) THEN 0 ELSE obj[o].sl + 1)
    /\ WalkPos(o, n + 1) = (IF WalkPos(o, n) >= L(o) THEN 0 ELSE WalkPos(o, n) + 1)
    /\ WalkRet(o, n + 1, TRUE)[n + 1] = (IF WalkPos(o, n) >= L(o) THEN "NULL" ELSE At(S(o), WalkPos(o, n)))
    /\ PopManyRet(o, n)[1] = PopRet(o)
LawFind == \A o \in Slots : Live(o) => \A i \in 0..(L(o) - 1) :
    LET k == FindFirst(S(o), At(S(o), i)) IN k >= 0 /\ k <= i /\ At(S(o), k) = At(S(o), i)
=============================================================================
