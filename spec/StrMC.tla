------------------------------- MODULE StrMC -------------------------------
(* Exhaustive exploration of Str: one text (owned or a static view) plus one *)
(* result slot, all texts up to MaxLen over Alphabet, all needles up to      *)
(* MaxZ. Every explored transition is printed as a call history.             *)
EXTENDS Str, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxZ, MaxCap, Family
VARIABLE hist
MCView == vars
TextsUpTo(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
T == TextsUpTo(MaxLen)
Z == TextsUpTo(MaxZ)
H(op) == hist' = Append(hist, op)
Caps(o, n) == IF n <= Cap(o) THEN {Cap(o)} ELSE {n}
MCInit == StrInit /\ hist = <<>>
o == 0

Gate(pre, act) == IF pre THEN act ELSE Refuse
G(t) == \E nc \in Caps(o, Len(t)) : Grow(o, t, nc)
Fam(f) == f \in Family

Make ==
  /\ ~Live(o)
  /\ IF Fam("view") THEN \E z \in T : H(<<"static", o, z>>) /\ Static(o, z) ELSE
     \/ \E z \in T : H(<<"create", o, z>>) /\ Gate(CreatePre(z), Create(o, z, Len(z)))
     \/ \E z \in T : H(<<"own", o, z>>) /\ Own(o, z)
     \/ \E n \in 0..2 : H(<<"create_len", o, n>>) /\ Gate(SizePre(n), CreateLen(o, n))
     \/ \E n \in 0..2 : H(<<"create_cap", o, n>>) /\ Gate(SizePre(n), CreateCap(o, n))

Edit ==
  /\ Fam("edit")
  /\ \/ H(<<"shrink", o>>) /\ Gate(OwnedPre(o), Shrink(o))
     \/ \E n \in 0..2 : H(<<"reserve", o, n>>) /\ Gate(OwnedPre(o) /\ SizePre(n), Reserve(o, n))
     \/ \E n \in 0..(MaxLen + 1) : H(<<"resize", o, n>>) /\ Gate(OwnedPre(o) /\ SizePre(n), Resize(o, n))
     \/ \E z \in Z : H(<<"append", o, z>>) /\ Gate(AppendPre(o, Len(z)), G(Txt(o) \o z))
     \/ \E z \in Z : \E n \in 0..Len(z) : H(<<"append_n", o, z, n>>) /\ Gate(AppendPre(o, n), G(Txt(o) \o Take(z, n)))
     \/ \E z \in Z, at \in 0..MaxLen : H(<<"insert", o, z, at>>) /\ Gate(InsertPre(o, z, at), G(InsertSeqAt(Txt(o), at, z)))
     \/ \E z \in Z, at \in 0..MaxLen : \E n \in 0..Len(z) : /\ H(<<"insert_n", o, z, at, n>>)
                 /\ Gate(InsertNPre(o, at, n), G(InsertSeqAt(Txt(o), at, Take(z, n))))
     \/ \E z \in Z : H(<<"appendf", o, 0, z, 0>>) /\ Gate(Fits(o, L(o) + Len(z)), G(Txt(o) \o z))
     \/ \E z \in Z, at \in 0..MaxLen : H(<<"insertf", o, 0, z, 0, at>>) /\ Gate(InsertPre(o, z, at), G(InsertSeqAt(Txt(o), at, z)))
     \/ /\ ~View(o)
        /\ \/ H(<<"clear", o>>) /\ Clear(o)
           \/ \E at \in 0..MaxLen : H(<<"cut", o, at>>) /\ Gate(AtPre(o, at), Cut(o, at))
           \/ \E z \in Z : Len(z) <= Cap(o) /\ H(<<"fill", o, z>>) /\ Fill(o, z)
           \/ \E z \in Z : H(<<"set", o, z>>) /\ Gate(SetPre(o, Len(z)), Set(o, z, Len(z)))
           \/ \E z \in Z : \E n \in 0..Len(z) : H(<<"set_n", o, z, n>>) /\ Gate(SetPre(o, n), Set(o, z, n))
           \/ \E z \in Z, at \in 0..MaxLen : H(<<"set_at", o, z, at>>) /\ Gate(SetAtPre(o, z, at), SetAt2(o, z, at))
           \/ \E c \in Alphabet, at \in 0..MaxLen : H(<<"set_c", o, c, at>>) /\ Gate(AtPre(o, at), SetC(o, c, at))
           \/ \E at \in 0..MaxLen, n \in 0..MaxLen : H(<<"remove", o, at, n>>) /\ Gate(RemovePre(o, at, n), Remove(o, at, n))
           \/ \E s \in Z, z \in Z : H(<<"insert_before", o, s, z>>) /\ Gate(BeforePre(o, s, z), \E nc \in Caps(o, L(o) + Len(z)) : InsBefore(o, s, z, nc))
           \/ \E s \in Z, z \in Z : H(<<"insert_after", o, s, z>>) /\ Gate(AfterPre(o, s, z), \E nc \in Caps(o, L(o) + Len(z)) : InsAfter(o, s, z, nc))
           \/ ~Live(1) /\ L(o) <= 1 /\ H(<<"dup", o, 1>>) /\ Gate(L(o) > 0, Dup(o, 1, L(o)))

ViewDup == /\ Fam("view") /\ ~Live(1)
           /\ \/ H(<<"dup", o, 1>>) /\ Gate(L(o) > 0, Dup(o, 1, L(o)))
              \/ \E p \in Z : /\ H(<<"join", o, 1, <<44>>, p>>)
                                 /\ Gate(JoinPre(<<p>>, <<44>>) /\ Fits(o, L(o) + Len(p)), G(Txt(o) \o p))

Query ==
  /\ Fam("query")
  /\ \/ \E z \in Z : \E f \in {"find", "index_find", "can_find"} : H(<<f, o, z>>) /\ Gate(NeedlePre(o, z), Keep)
     \/ \E z \in Z : \E f \in {"starts_with", "ends_with"} : H(<<f, o, z>>) /\ Keep
     \/ \E c \in Alphabet : H(<<"index_of", o, c>>) /\ Keep
     \/ H(<<"is_numeric", o>>) /\ Keep
     \/ H(<<"info", o>>) /\ Keep

Search ==
  /\ Fam("search") /\ ~View(o)
  /\ \/ \E z \in Z : H(<<"remove_first", o, z>>) /\ InPlace(o, RemoveFirstSub(Txt(o), z))
     \/ \E z \in Z : H(<<"remove_last", o, z>>) /\ InPlace(o, RemoveLastSub(Txt(o), z))
     \/ \E z \in Z : H(<<"remove_all", o, z>>) /\ InPlace(o, RemoveAllSub(Txt(o), z))
     \/ \E z \in Z : H(<<"remove_c", o, z>>) /\ InPlace(o, RemoveChars(Txt(o), z))
     \/ \E z \in Z : H(<<"strip_c", o, z>>) /\ InPlace(o, StripSet(Txt(o), z))
     \/ H(<<"strip", o>>) /\ InPlace(o, StripSpace(Txt(o)))
     \/ H(<<"strip_punct", o>>) /\ InPlace(o, StripPunct(Txt(o)))
     \/ H(<<"upper", o>>) /\ InPlace(o, [i \in 1..L(o) |-> Upper(Txt(o)[i])])
     \/ \E z \in Z, r \in Z : H(<<"replace", o, z, r>>) /\ G(ReplaceAllSub(Txt(o), z, r))
     \/ \E z \in Z, r \in Z : H(<<"replace_first", o, z, r>>) /\ Gate(NoRep(z, r) \/ NeedlePre(o, z), G(ReplaceFirstSub(Txt(o), z, r)))
     \/ \E z \in Z, r \in Z : H(<<"replace_last", o, z, r>>) /\ G(ReplaceLastSub(Txt(o), z, r))
     \/ \E z \in Z, r \in Z : H(<<"replace_c", o, z, r>>) /\ Gate(ReplCPre(z, r), InPlace(o, ReplaceChars(Txt(o), z, r)))

Parts ==
  /\ Fam("parts")
  /\ \/ \E z \in Z, m \in {-1, 0, 1} : H(<<"split", o, z, m>>) /\ Gate(NeedlePre(o, z), Keep)
     \/ /\ ~View(o) /\ ~Live(1)
        /\ \/ \E z \in Z : H(<<"pop_first", o, -1, 1, z>>) /\ Pop(o, -1, 1, PopFirstOK(o, z), PopFirstPart(o, z), PopFirstRest(o, z), Len(PopFirstPart(o, z)))
           \/ \E z \in Z : H(<<"pop_last", o, -1, 1, z>>) /\ Pop(o, -1, 1, PopLastOK(o, z), PopLastPart(o, z), PopLastRest(o, z), Len(PopLastPart(o, z)))
           \/ \E p, q \in Z, z \in TextsUpTo(1) : H(<<"join", o, 1, z, p, q>>) /\ Gate(JoinPre(<<p, q>>, z), G(Txt(o) \o JoinBy(<<p, q>>, z)))
           \/ \E p, q \in Z, z \in TextsUpTo(1) : H(<<"join_n", o, 1, z, p, q>>) /\ Gate(JoinPre(<<p, q>>, z), G(Txt(o) \o JoinBy(<<p, q>>, z)))
     \/ /\ ~View(o)
        /\ \E zl \in Z \ {<<>>}, zr \in Z : /\ H(<<"between", -1, 1, Txt(o), zl, zr>>) /\ Keep
     \/ /\ Live(1) /\ ~View(o)
        /\ \/ \E z \in Z : H(<<"pop_first", o, 1, 1, z>>) /\ Pop(o, 1, 1, PopFirstOK(o, z), PopFirstPart(o, z), PopFirstRest(o, z), Max2(Cap(1), Len(PopFirstPart(o, z))))
           \/ \E z \in Z : H(<<"pop_last", o, 1, 1, z>>) /\ Pop(o, 1, 1, PopLastOK(o, z), PopLastPart(o, z), PopLastRest(o, z), Max2(Cap(1), Len(PopLastPart(o, z))))

Iter ==
  /\ Fam("slide")
  /\ \/ H(<<"slide_front", o>>) /\ Slide(o)
     \/ H(<<"slide_back", o>>) /\ Slide(o)
     \/ H(<<"slide_reset", o>>) /\ SlideReset(o)
     \/ ~View(o) /\ \E z \in TextsUpTo(1) : H(<<"apply", o, z>>) /\ Apply(o, z)
     \/ ~View(o) /\ \E z \in TextsUpTo(1) : z # <<>> /\ H(<<"append", o, z>>) /\ G(Txt(o) \o z)
     \/ ~View(o) /\ L(o) > 0 /\ H(<<"remove", o, 0, 1>>) /\ Remove(o, 0, 1)

MCNext == ~dead /\ (Make \/ (Live(o) /\ (Edit \/ ViewDup \/ Query \/ Search \/ Parts \/ Iter
                                         \/ (H(<<"destroy", o>>) /\ Destroy(o)))))

Bound == L(0) <= MaxLen /\ Cap(0) <= MaxCap /\ L(1) <= MaxLen /\ Cap(1) <= MaxCap
Emit  == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))
Laws  == \A z \in Z, r \in Z : StrLaws(Txt(0), z, r)
(* an operation on one string leaves the other alone (pop and dup name both) *)
Indep == [][obj'[1] # obj[1] => hist'[Len(hist')][1] \in {"dup", "pop_first", "pop_last"}]_vars
=============================================================================
