------------------------------- MODULE SeqOps -------------------------------
(* Pure operators on finite sequences shared by the container models.         *)
(* Indices are 0-based, as in the C API: element i of s is s[i+1].            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

At(s, i)            == s[i + 1]
Take(s, n)          == SubSeq(s, 1, n)
Drop(s, n)          == SubSeq(s, n + 1, Len(s))
SetAt(s, i, x)      == [s EXCEPT ![i + 1] = x]
InsertAt(s, i, x)   == Take(s, i) \o <<x>> \o Drop(s, i)
InsertSeqAt(s, i, t)== Take(s, i) \o t \o Drop(s, i)
RemoveStable(s, i)  == Take(s, i) \o Drop(s, i + 1)
RemoveRange(s, i, n)== Take(s, i) \o Drop(s, i + n)
(* unordered removal: the last element takes the place of the removed one *)
RemoveFast(s, i)    == Take([s EXCEPT ![i + 1] = s[Len(s)]], Len(s) - 1)
Front1(s)           == SubSeq(s, 1, Len(s) - 1)
LastOf(s)           == s[Len(s)]
Min2(a, b)          == IF a <= b THEN a ELSE b
Max2(a, b)          == IF a >= b THEN a ELSE b

(* first index (0-based) of x in s, -1 if absent *)
FindFirst(s, x) ==
    IF \E i \in 1..Len(s) : s[i] = x
    THEN (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x) - 1
    ELSE -1

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
IsPermOf(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
