-------------------------------- MODULE Str --------------------------------
(* vt_str_t: mutable texts with a capacity, and static views of texts.       *)
(* One action per public call; slots as in Vec. A view never changes and     *)
(* never grows. Capacity after implicit growth is left open (any capacity    *)
(* that holds the text); it must not change while the text fits.             *)
EXTENDS StrOps
CONSTANT Slots
VARIABLES obj,   \* Slots -> [live, txt, cap, sl, view]
          dead
vars == <<obj, dead>>

None == [live |-> FALSE, txt |-> <<>>, cap |-> 0, sl |-> 0, view |-> FALSE]
StrInit == obj = [o \in Slots |-> None] /\ dead = FALSE

Live(o) == obj[o].live
Txt(o)  == obj[o].txt
L(o)    == Len(obj[o].txt)
Cap(o)  == obj[o].cap
View(o) == obj[o].view
Put(o, t, c) == obj' = [obj EXCEPT ![o].txt = t, ![o].cap = c] /\ UNCHANGED dead
Keep == UNCHANGED vars
New(o, t, c, v) == /\ ~Live(o) /\ UNCHANGED dead
                   /\ obj' = [obj EXCEPT ![o] = [live |-> TRUE, txt |-> t, cap |-> c, sl |-> 0, view |-> v]]
GrowOK(o, n, nc) == IF n <= Cap(o) THEN nc = Cap(o) ELSE nc >= n
(* a view has no space, so an operation that needs more characters is refused *)
Fits(o, n) == View(o) => n <= Cap(o)
Refuse == dead' = TRUE /\ UNCHANGED obj

(* ------------------------------ contracts ------------------------------- *)
CreatePre(z)        == z # <<>>
SizePre(n)          == n > 0
SetPre(o, n)        == n > 0 /\ n <= L(o)
SetAtPre(o, z, at)  == at < L(o) /\ z # <<>> /\ Len(z) <= L(o) - at
AtPre(o, at)        == at < L(o)
AppendPre(o, n)     == n > 0 /\ Fits(o, L(o) + n)
InsertPre(o, z, at) == at < L(o) /\ Fits(o, L(o) + Len(z))
InsertNPre(o, at, n)== at <= L(o) /\ n > 0 /\ Fits(o, L(o) + n)
NeedlePre(o, z)     == Len(z) <= L(o)
(* before/after: nothing happens when sub is absent; appending nothing at the
   very end is refused like any empty append *)
BeforePre(o, sub, z) == NeedlePre(o, sub) /\ (Occurs(Txt(o), sub) =>
                          (FindSub(Txt(o), sub) < L(o) /\ Fits(o, L(o) + Len(z))))
AfterPre(o, sub, z)  == NeedlePre(o, sub) /\ (Occurs(Txt(o), sub) =>
                          /\ (FindSub(Txt(o), sub) + Len(sub) < L(o) \/ z # <<>>)
                          /\ Fits(o, L(o) + Len(z)))
RemovePre(o, at, n)  == at < L(o) /\ n > 0
ReplFits(o, t)       == Fits(o, Len(t))
ReplCPre(c, r)       == Len(r) <= Len(c)
JoinPre(ps, z)       == /\ ps # <<>> /\ (\A i \in 1..Len(ps) : ps[i] # <<>>)
                        /\ (Len(ps) > 1 => z # <<>>)
OwnedPre(o)          == ~View(o)

(* ------------------------------- actions -------------------------------- *)
Create(o, z, c)   == CreatePre(z) /\ c >= Len(z) /\ New(o, z, c, FALSE)
CreateLen(o, n)   == SizePre(n) /\ New(o, [i \in 1..n |-> 63], n, FALSE)
CreateCap(o, n)   == SizePre(n) /\ New(o, <<>>, n, FALSE)
Own(o, z)         == New(o, z, Len(z), FALSE)
Static(o, z)      == New(o, z, Len(z), TRUE)
Dup(o, d, c)      == Live(o) /\ c >= L(o) /\ New(d, Txt(o), c, FALSE)
Destroy(o)        == Live(o) /\ obj' = [obj EXCEPT ![o] = None] /\ UNCHANGED dead
Shrink(o)         == Live(o) /\ OwnedPre(o) /\ Put(o, Txt(o), L(o))
Clear(o)          == Live(o) /\ Put(o, <<>>, Cap(o))
Reserve(o, n)     == Live(o) /\ OwnedPre(o) /\ SizePre(n) /\ Put(o, Txt(o), Cap(o) + n)
Resize(o, n)      == Live(o) /\ OwnedPre(o) /\ SizePre(n) /\ Put(o, Take(Txt(o), Min2(n, L(o))), n)
Cut(o, at)        == Live(o) /\ AtPre(o, at) /\ Put(o, Take(Txt(o), at), Cap(o))
Fill(o, z)        == Live(o) /\ Len(z) <= Cap(o) /\ Put(o, z, Cap(o))
Set(o, z, n)      == Live(o) /\ SetPre(o, n) /\ n <= Len(z) /\ Put(o, Take(z, n), Cap(o))
SetAt2(o, z, at)  == Live(o) /\ SetAtPre(o, z, at) /\ Put(o, Take(Txt(o), at) \o z, Cap(o))
SetC(o, c, at)    == Live(o) /\ AtPre(o, at) /\ Put(o, SetAt(Txt(o), at, c), Cap(o))
Grow(o, t, nc)    == GrowOK(o, Len(t), nc) /\ Put(o, t, nc)
AppendZ(o, z, nc) == Live(o) /\ Grow(o, Txt(o) \o z, nc)
InsertZ(o, z, at, nc) == Live(o) /\ Grow(o, InsertSeqAt(Txt(o), at, z), nc)
InsBefore(o, sub, z, nc) == LET k == FindSub(Txt(o), sub) IN
                            IF k < 0 THEN Keep ELSE Grow(o, InsertSeqAt(Txt(o), k, z), nc)
InsAfter(o, sub, z, nc)  == LET k == FindSub(Txt(o), sub) IN
                            IF k < 0 THEN Keep ELSE Grow(o, InsertSeqAt(Txt(o), k + Len(sub), z), nc)
Remove(o, at, n)  == Live(o) /\ RemovePre(o, at, n) /\ Put(o, RemoveAt(Txt(o), at, Min2(n, L(o) - at)), Cap(o))
(* in-place transformations never change the capacity *)
InPlace(o, t)     == Live(o) /\ Len(t) <= Cap(o) /\ Put(o, t, Cap(o))
RemFirstRet(o, z) == IF Occurs(Txt(o), z) THEN "ok" ELSE "notfound"
FmtText(k, z, n) == CASE k = 0 -> z
                      [] k = 1 -> Dec(n)
                      [] k = 2 -> z \o Dec(n) \o z
                      [] k = 3 -> z \o <<37>>
                      [] k = 4 -> <<91, 107, 93>> \o Dec(n)
                      [] OTHER -> <<112, 108, 97, 105, 110>>

(* results delivered into a given string (slot o >= 0) or a new one (slot d) *)
Result(o, d, t, nc) == IF o >= 0 THEN Put(o, t, nc) /\ nc >= Len(t)
                       ELSE New(d, t, nc, FALSE) /\ nc >= Len(t)
(* split between marks: <<>> on success of an empty part; FALSE = NULL *)
BetweenOK(z, zl, zr) == LET k == FindSub(z, zl) IN k >= 0 /\ FindFrom(z, zr, k + Len(zl)) >= 0
BetweenTxt(z, zl, zr) == LET k == FindSub(z, zl) IN SubSeq(z, k + Len(zl) + 1, FindFrom(z, zr, k + Len(zl)))

PopFirstOK(o, z) == z # <<>> /\ FindSub(Txt(o), z) > 0
PopFirstPart(o, z) == Take(Txt(o), FindSub(Txt(o), z))
PopFirstRest(o, z) == Drop(Txt(o), FindSub(Txt(o), z) + Len(z))
PopLastOK(o, z) == LastOcc(Txt(o), z) >= 0 /\ LastOcc(Txt(o), z) + Len(z) < L(o)
PopLastPart(o, z) == Drop(Txt(o), LastOcc(Txt(o), z) + Len(z))
PopLastRest(o, z) == Take(Txt(o), LastOcc(Txt(o), z))
Pop(o, sr, d, ok, part, rest, nc) ==
    IF ~ok THEN Keep
    ELSE /\ nc >= Len(part) /\ UNCHANGED dead
         /\ IF sr >= 0 THEN obj' = [obj EXCEPT ![o].txt = rest, ![sr].txt = part, ![sr].cap = nc]
            ELSE /\ ~Live(d)
                 /\ obj' = [obj EXCEPT ![o].txt = rest, ![d] = [live |-> TRUE, txt |-> part, cap |-> nc, sl |-> 0, view |-> FALSE]]

SlideDone(o)     == obj[o].sl >= L(o)
SlideFrontRet(o) == IF SlideDone(o) THEN -1 ELSE At(Txt(o), obj[o].sl)
SlideBackRet(o)  == IF SlideDone(o) THEN -1 ELSE At(Txt(o), L(o) - 1 - obj[o].sl)
Slide(o)         == Live(o) /\ obj' = [obj EXCEPT ![o].sl = IF SlideDone(o) THEN 0 ELSE @ + 1] /\ UNCHANGED dead
SlideReset(o)    == Live(o) /\ obj' = [obj EXCEPT ![o].sl = 0] /\ UNCHANGED dead
Apply(o, z)      == Live(o) /\ IF z = <<>> THEN Keep
                    ELSE Put(o, [i \in 1..L(o) |-> z[((i - 1) % Len(z)) + 1]], Cap(o))

(* ------------------------------ properties ------------------------------ *)
CapInv    == \A o \in Slots : Live(o) => L(o) <= Cap(o)
NoZero    == \A o \in Slots : \A i \in 1..L(o) : Txt(o)[i] # 0
ViewExact == \A o \in Slots : Live(o) /\ View(o) => Cap(o) >= L(o)
DeadSlotsEmpty == \A o \in Slots : ~Live(o) => obj[o] = None
(* a static view never changes its capacity, and stays a view until destroyed *)
ViewFixed == [][\A o \in Slots : Live(o) /\ View(o) /\ obj'[o].live => obj'[o].view /\ obj'[o].cap = Cap(o)]_vars
=============================================================================
