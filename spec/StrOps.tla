------------------------------- MODULE StrOps -------------------------------
(* Pure operators on texts: sequences of byte values, 0-based positions.      *)
EXTENDS SeqOps

MatchAt(s, i, z) == i + Len(z) <= Len(s) /\ SubSeq(s, i + 1, i + Len(z)) = z
(* first occurrence of z in s at position >= from, -1 if there is none *)
FindFrom(s, z, from) ==
    LET P == {i \in from..(Len(s) - Len(z)) : (z = <<>> \/ s[i + 1] = z[1]) /\ MatchAt(s, i, z)}
    IN  IF P = {} THEN -1 ELSE CHOOSE i \in P : \A j \in P : i <= j
FindSub(s, z) == FindFrom(s, z, 0)
Occurs(s, z) == FindSub(s, z) >= 0

(* positions of the left-to-right non-overlapping occurrences *)
RECURSIVE OccFrom(_, _, _)
OccFrom(s, z, from) == LET k == FindFrom(s, z, from)
                       IN IF k < 0 THEN <<>> ELSE <<k>> \o OccFrom(s, z, k + Len(z))
Occ(s, z) == IF z = <<>> THEN <<>> ELSE OccFrom(s, z, 0)
CountSub(s, z) == Len(Occ(s, z))
LastOcc(s, z)  == IF z = <<>> THEN -1 ELSE LET o == Occ(s, z) IN IF o = <<>> THEN -1 ELSE LastOf(o)

RemoveAt(s, k, n) == Take(s, k) \o Drop(s, k + n)
RemoveFirstSub(s, z) == LET k == FindSub(s, z) IN IF z = <<>> \/ k < 0 THEN s ELSE RemoveAt(s, k, Len(z))
RemoveLastSub(s, z)  == LET k == LastOcc(s, z) IN IF k < 0 THEN s ELSE RemoveAt(s, k, Len(z))
(* all occurrences, including those that only form by a removal *)
RECURSIVE RemoveAllSub(_, _)
RemoveAllSub(s, z) == IF z = <<>> \/ ~Occurs(s, z) THEN s ELSE RemoveAllSub(RemoveFirstSub(s, z), z)

ReplaceAt(s, k, n, r) == Take(s, k) \o r \o Drop(s, k + n)
NoRep(z, r) == z = <<>> \/ r = <<>>
ReplaceFirstSub(s, z, r) == LET k == FindSub(s, z) IN IF NoRep(z, r) \/ k < 0 THEN s ELSE ReplaceAt(s, k, Len(z), r)
ReplaceLastSub(s, z, r)  == LET k == LastOcc(s, z) IN IF NoRep(z, r) \/ k < 0 THEN s ELSE ReplaceAt(s, k, Len(z), r)
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, z, r, from) == LET k == FindFrom(s, z, from)
    IN IF k < 0 THEN s ELSE ReplaceFrom(ReplaceAt(s, k, Len(z), r), z, r, k + Len(r))
ReplaceAllSub(s, z, r) == IF NoRep(z, r) THEN s ELSE ReplaceFrom(s, z, r, 0)

In(c, z)        == \E i \in 1..Len(z) : z[i] = c
RemoveChars(s, z) == SelectSeq(s, LAMBDA c : ~In(c, z))
(* c[i] becomes r[i]; characters past the end of r become its last character *)
ReplaceChar(x, c, r) == LET k == FindFirst(c, x) IN IF k < 0 THEN x ELSE r[Min2(k + 1, Len(r))]
ReplaceChars(s, c, r) == IF c = <<>> \/ r = <<>> THEN s ELSE [i \in 1..Len(s) |-> ReplaceChar(s[i], c, r)]

IsSpace(c) == c = 32 \/ c \in 9..13
IsPunct(c) == c \in 33..47 \/ c \in 58..64 \/ c \in 91..96 \/ c \in 123..126
IsDigit(c) == c \in 48..57
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Strip(s, T(_)) ==
    IF \A i \in 1..Len(s) : T(s[i]) THEN <<>>
    ELSE LET a == CHOOSE i \in 1..Len(s) : ~T(s[i]) /\ \A j \in 1..(i - 1) : T(s[j])
             k == CHOOSE i \in 0..(Len(s) - 1) : ~T(s[Len(s) - i]) /\ \A j \in 0..(i - 1) : T(s[Len(s) - j])
         IN SubSeq(s, a, Len(s) - k)
StripSpace(s) == Strip(s, IsSpace)
StripPunct(s) == LET T(c) == IsSpace(c) \/ IsPunct(c) IN Strip(s, T)
StripSet(s, z) == LET T(c) == In(c, z) IN Strip(s, T)
IsNumericText(s) == \A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] = 46

StartsWith(s, z) == MatchAt(s, 0, z)
EndsWith(s, z)   == Len(z) <= Len(s) /\ MatchAt(s, Len(s) - Len(z), z)

(* all pieces between separators, and the non-empty ones among them *)
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(s, z, from) == LET k == FindFrom(s, z, from)
    IN IF k < 0 THEN <<Drop(s, from)>> ELSE <<SubSeq(s, from + 1, k)>> \o PiecesFrom(s, z, k + Len(z))
Pieces(s, z) == PiecesFrom(s, z, 0)
NonEmpty(ps) == SelectSeq(ps, LAMBDA p : p # <<>>)
SplitBy(s, z) == NonEmpty(Pieces(s, z))
RECURSIVE JoinBy(_, _)
JoinBy(ps, z) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o z \o JoinBy(Tail(ps), z)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

(* ---------- laws relating the operators, checked on all small texts -------- *)
StrLaws(s, z, r) ==
    /\ Occurs(s, z) <=> \E i \in 0..Len(s) : MatchAt(s, i, z)
    /\ ~Occurs(RemoveAllSub(s, z), z) \/ z = <<>>
    /\ CountSub(s, z) * Len(z) <= Len(s)
    /\ (z # <<>> => JoinBy(Pieces(s, z), z) = s)
    /\ (z # <<>> => Len(Pieces(s, z)) = CountSub(s, z) + 1)
    /\ (z # <<>> /\ r # <<>> => ReplaceAllSub(s, z, r) = JoinBy(Pieces(s, z), r))
    /\ (z # <<>> /\ r # <<>> => Len(ReplaceFirstSub(s, z, r)) = Len(s) + (IF Occurs(s, z) THEN Len(r) - Len(z) ELSE 0))
    /\ (Len(Occ(s, z)) = 1 => /\ RemoveFirstSub(s, z) = RemoveLastSub(s, z)
                              /\ ReplaceFirstSub(s, z, r) = ReplaceLastSub(s, z, r))
    /\ StripSpace(StripSpace(s)) = StripSpace(s)
    /\ (\E i \in 0..Len(s) : \E j \in i..Len(s) : StripSet(s, z) = SubSeq(s, i + 1, j)
           /\ (\A k \in 1..i : In(s[k], z))
           /\ (\A k \in (j + 1)..Len(s) : In(s[k], z)))
    /\ (StripSet(s, z) # <<>> => ~In(StripSet(s, z)[1], z) /\ ~In(LastOf(StripSet(s, z)), z))
    /\ \A i \in 1..Len(RemoveChars(s, z)) : ~In(RemoveChars(s, z)[i], z)
    /\ (StartsWith(s, z) <=> FindSub(s, z) = 0 )
=============================================================================
