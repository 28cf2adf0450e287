-------------------------------- MODULE Path --------------------------------
(* Path texts: a path buffer that is edited in place (cur) and a result       *)
(* string (res) that path functions can be asked to reuse.                    *)
EXTENDS StrOps
VARIABLES cur, res, dead
vars == <<cur, res, dead>>
Sep == 47
Back == 92
Tilde == 126
SepZ == <<Sep>>

HasSep(s) == \E i \in 1..Len(s) : s[i] = Sep
(* last position (1-based) of a separator in s, not counting a trailing one *)
Inner(s) == {i \in 1..(Len(s) - 1) : s[i] = Sep}
Base(s) == IF Inner(s) = {} THEN s ELSE Drop(s, CHOOSE i \in Inner(s) : \A j \in Inner(s) : j <= i)
PopText(s) == IF ~HasSep(s) THEN s
              ELSE IF s[Len(s)] = Sep THEN Take(s, Len(s) - 1)
              ELSE LET P == {i \in 1..Len(s) : s[i] = Sep} IN Take(s, (CHOOSE i \in P : \A j \in P : j <= i) - 1)
Valid(s) == [i \in 1..Len(s) |-> IF s[i] = Back THEN Sep ELSE s[i]]
Expand(s, isset, home) == IF isset /\ s # <<>> /\ s[1] = Tilde THEN home \o Tail(s) ELSE s
BuildPre(ps) == ps # <<>> /\ \A i \in 1..Len(ps) : ps[i] # <<>>
Build(ps) == JoinBy(ps, SepZ)

Refuse == dead' = TRUE /\ UNCHANGED <<cur, res>>
Set(t) == cur' = t /\ UNCHANGED <<res, dead>>
Pop == cur' = PopText(cur) /\ UNCHANGED <<res, dead>>
Validate == cur' = Valid(cur) /\ UNCHANGED <<res, dead>>
Into(given, t) == res' = (IF given THEN t ELSE res) /\ UNCHANGED <<cur, dead>>
BaseInto(given) == Into(given, IF HasSep(cur) THEN Base(cur) ELSE res)
BuildInto(given, ps) == Into(given, res \o Build(ps))

(* -------------------------------- properties ----------------------------- *)
Laws(s) ==
  /\ (HasSep(s) /\ s[Len(s)] # Sep => PopText(s) \o SepZ \o Base(s) = s)            \* nothing lost
  /\ (HasSep(s) /\ s[Len(s)] = Sep => PopText(s) \o SepZ = s)
  /\ (HasSep(s) => Base(s) # <<>> /\ EndsWith(s, Base(s)) /\ ~HasSep(Take(Base(s), Len(Base(s)) - 1)))
  /\ Len(Valid(s)) = Len(s) /\ Valid(Valid(s)) = Valid(s) /\ (\A i \in 1..Len(s) : Valid(s)[i] # Back)
  /\ (\A i \in 1..Len(s) : s[i] # Back => Valid(s)[i] = s[i])
  /\ Expand(s, FALSE, <<97>>) = s /\ (s # <<>> /\ s[1] = Tilde => Expand(s, TRUE, <<Sep, 104>>) = <<Sep, 104>> \o Tail(s))
  /\ (s # <<>> /\ ~HasSep(s) => Base(Build(<<<<97>>, s>>)) = s /\ PopText(Build(<<<<97>>, s>>)) = <<97>>)
LawsHold == Laws(cur)
(* popping shortens a path until it has no separator, then leaves it alone *)
PopShrinks == [][cur' # cur /\ Len(cur') < Len(cur) => StartsWith(cur, cur')]_cur
=============================================================================
