------------------------------- MODULE ArgOpt -------------------------------
(* Command line parsing: an option table, an argument vector, and the machine *)
(* that consumes the vector from left to right. Texts are sequences of        *)
(* character codes.                                                           *)
EXTENDS Conv
Eq == 61
Dash == 45
One == <<49>>
HelpShort == <<45, 104>>
HelpLong == <<45, 45, 104, 101, 108, 112>>
TrueText == <<116, 114, 117, 101>>
(* option=value is cut at the first '='; an argument that starts with '=' is not cut *)
EqAt(a) == IF \E i \in 1..Len(a) : a[i] = Eq THEN CHOOSE i \in 1..Len(a) : a[i] = Eq /\ \A k \in 1..(i - 1) : a[k] # Eq ELSE 0
HasCut(a) == EqAt(a) > 1
Name(a) == IF HasCut(a) THEN SubSeq(a, 1, EqAt(a) - 1) ELSE a
Given(a) == SubSeq(a, EqAt(a) + 1, Len(a))
(* the first table entry with that name, 0 if there is none *)
Match(tab, n) == {j \in 1..Len(tab) : tab[j].long = n \/ tab[j].short = n}
Find(tab, n) == IF Match(tab, n) = {} THEN 0 ELSE CHOOSE j \in Match(tab, n) : \A k \in Match(tab, n) : j <= k
ValidTable(tab) == \A j \in 1..Len(tab) : tab[j].ok /\ Len(tab[j].short) <= 3
WantsHelp(args) == Len(args) = 1 /\ ((Len(args[1]) > 0 /\ args[1][1] = 63) \/ args[1] \in {HelpShort, HelpLong})
IsValue(a) == ~(Len(a) > 0 /\ a[1] = Dash)

(* one step: the argument at i. Result: the entry (0: unrecognised), the value, the next position *)
TakesNext(args, i) == ~HasCut(args[i]) /\ i < Len(args) /\ IsValue(args[i + 1])
Reads(tab, args, i) ==
  [j |-> Find(tab, Name(args[i])),
   v |-> IF HasCut(args[i]) THEN Given(args[i]) ELSE IF TakesNext(args, i) THEN args[i + 1] ELSE One,
   i |-> IF TakesNext(args, i) THEN i + 2 ELSE i + 1]
(* the whole run: the assignments made, and whether all was recognised *)
RECURSIVE RunFrom(_, _, _)
RunFrom(tab, args, i) ==
  IF i > Len(args) THEN [ok |-> TRUE, as |-> <<>>]
  ELSE LET r == Reads(tab, args, i) IN
       IF r.j = 0 THEN [ok |-> FALSE, as |-> <<>>]
       ELSE LET q == RunFrom(tab, args, r.i) IN [ok |-> q.ok, as |-> << <<r.j, r.v>> >> \o q.as]
Outcome(tab, args) == IF ~ValidTable(tab) THEN [ret |-> -1, as |-> <<>>]
                      ELSE IF WantsHelp(args) THEN [ret |-> 1, as |-> <<>>]
                      ELSE LET q == RunFrom(tab, args, 1) IN [ret |-> IF q.ok THEN 0 ELSE -1, as |-> q.as]
Mine(as, j) == {k \in 1..Len(as) : as[k][1] = j}
LastFor(as, j) == as[CHOOSE k \in Mine(as, j) : \A m \in Mine(as, j) : m <= k][2]

(* what a value text means for a type *)
Truth(t) == (Len(t) > 0 /\ t[1] = 49) \/ t = TrueText
Stores(ty, t, x) ==
  CASE ty \in IntTypes -> ReadsInt(ty, t, x.i)
    [] ty \in FloatTypes -> ReadsFloat(ty, t, x.m, x.e)
    [] ty = "bool" -> x.b = Truth(t)
    [] ty = "char" -> x.c = IF t = <<>> THEN 0 ELSE t[1]
    [] ty \in {"str", "cstr"} -> ~x.null /\ x.t = t
    [] OTHER -> FALSE
Storable(ty) == ty # "other"
After(tab, before, as, after) ==
  /\ Len(after) = Len(before)
  /\ \A j \in 1..Len(tab) : IF Mine(as, j) # {} /\ Storable(tab[j].ty) THEN Stores(tab[j].ty, LastFor(as, j), after[j]) ELSE after[j] = before[j]

(* the help text *)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN <<>> ELSE <<32>> \o Spaces(n - 1)
Pad(t, w) == Spaces(w - Len(t)) \o t
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Lines(_, _, _, _)
Lines(tab, j, ws, wl) == IF j > Len(tab) THEN <<>> ELSE Pad(tab[j].short, ws) \o <<32>> \o Pad(tab[j].long, wl) \o <<32>> \o tab[j].desc \o <<10>> \o Lines(tab, j + 1, ws, wl)
HelpDesc == <<84, 104, 105, 115, 32, 104, 101, 108, 112, 32, 105, 110, 102, 111, 114, 109, 97, 116, 105, 111, 110, 46>>
HelpText(tab, head, foot) ==
  LET ws == MaxOf({2} \cup {Len(tab[j].short) : j \in 1..Len(tab)})
      wl == MaxOf({6} \cup {Len(tab[j].long) : j \in 1..Len(tab)})
      opt(h) == IF h.null THEN <<>> ELSE h.t \o <<10>> IN
  opt(head) \o Lines(tab, 1, ws, wl) \o Pad(HelpShort, ws) \o <<32>> \o Pad(HelpLong, wl) \o <<32>> \o HelpDesc \o <<10>> \o opt(foot)
=============================================================================
