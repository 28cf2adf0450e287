------------------------------- MODULE FsTree -------------------------------
(* A directory tree below one root: a set of entries                          *)
(*   [p |-> path from the root (names), k |-> "d" | "f" | "l" | "p" (pipe),    *)
(*    n |-> size of a file, t |-> target of a link / contents of a file]       *)
(* and the calls that query and change it. Paths given to calls are component *)
(* sequences as written ("" for an empty component, "." and ".." allowed).    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tree, dead
vars == <<tree, dead>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
LastOf(s) == s[Len(s)]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Dir(p) == [p |-> p, k |-> "d", n |-> "0", t |-> <<>>]
File(p, n) == [p |-> p, k |-> "f", n |-> n, t |-> <<>>]
Pipe(p) == [p |-> p, k |-> "p", n |-> "0", t |-> <<>>]
Link(p, t) == [p |-> p, k |-> "l", n |-> "0", t |-> t]
Paths(T) == {x.p : x \in T}
At(T, p) == CHOOSE x \in T : x.p = p
Kind(T, p) == IF p = <<>> THEN "d" ELSE IF p \in Paths(T) THEN At(T, p).k ELSE "-"
Below(T, p) == {x \in T : IsPrefix(p, x.p)}                       \* p and everything under it
Kids(T, p) == {x \in T : x.p # <<>> /\ Len(x.p) = Len(p) + 1 /\ IsPrefix(p, x.p)}
Empty(T, p) == Kids(T, p) = {}

(* ------------------------------- resolution ------------------------------ *)
(* Walk from directory d along cs: <<"at", path>> names an entry or a free    *)
(* place in an existing directory, <<"no">> nothing. follow: the last link.   *)
No == <<"no", <<>>>>
Fuel == 12
RECURSIVE Walk(_, _, _, _, _)
Walk(T, d, cs, follow, fuel) ==
  IF fuel = 0 THEN No
  ELSE IF cs = <<>> THEN <<"at", d>>
  ELSE LET c == Head(cs) rest == Tail(cs) q == Append(d, c) k == Kind(T, q) IN
    CASE c = "" \/ c = "." -> Walk(T, d, rest, follow, fuel)
      [] c = ".." -> IF d = <<>> THEN No ELSE Walk(T, Front(d), rest, follow, fuel)   \* nothing above the root is in reach
      [] k = "d" -> Walk(T, q, rest, follow, fuel)
      [] k = "l" -> IF rest = <<>> /\ ~follow THEN <<"at", q>> ELSE Walk(T, d, At(T, q).t \o rest, follow, fuel - 1)
      [] OTHER -> IF rest = <<>> THEN <<"at", q>> ELSE No
(* a path as given: the empty path names nothing, a trailing separator asks for a directory *)
Res(T, z, follow) == IF z = <<"">> \/ z = <<>> THEN No ELSE Walk(T, <<>>, z, follow, Fuel)
KindOf(T, r) == IF r[1] = "no" THEN "-" ELSE Kind(T, r[2])
Type(T, z) == KindOf(T, Res(T, z, TRUE))          \* "-" missing, "d", "f"
LType(T, z) == KindOf(T, Res(T, z, FALSE))        \* "l" for a link itself
Place(T, z) == Res(T, z, FALSE)[2]

(* ------------------------------- effects --------------------------------- *)
Exists(T, z) == Type(T, z) # "-"
MkdirOK(T, z) == Type(T, z) = "d" \/ (LType(T, z) = "-" /\ Res(T, z, FALSE)[1] = "at")
MkdirT(T, z) == IF Type(T, z) = "d" \/ ~MkdirOK(T, z) THEN T ELSE T \cup {Dir(Place(T, z))}
(* make every directory along the way; stops at the first that cannot be made *)
Solid(z) == SelectSeq(z, LAMBDA c : c # "")
RECURSIVE MkdirsT(_, _, _)
MkdirsT(T, z, i) == IF i > Len(z) THEN <<TRUE, T>>
                    ELSE LET p == SubSeq(z, 1, i) IN IF MkdirOK(T, p) THEN MkdirsT(MkdirT(T, p), z, i + 1) ELSE <<FALSE, T>>
Mkdirs(T, z) == IF Solid(z) = <<>> THEN <<Type(T, z) = "d", T>> ELSE MkdirsT(T, Solid(z), 1)
RmdirOK(T, z) == LType(T, z) = "d" /\ Place(T, z) # <<>> /\ Empty(T, Place(T, z))
Drop1(T, z) == {x \in T : x.p # Place(T, z)}
RmdirsOK(T, z) == LType(T, z) = "d" /\ Place(T, z) # <<>>
Prune(T, z) == T \ Below(T, Place(T, z))
RemoveOK(T, z) == Exists(T, z) /\ (LType(T, z) \in {"f", "l", "p"} \/ RmdirOK(T, z))
RenameOK(T, a, b) ==
  LET ka == LType(T, a) kb == LType(T, b) pa == Place(T, a) pb == Place(T, b) IN
  /\ Exists(T, a) /\ Res(T, b, FALSE)[1] = "at" /\ pa # <<>> /\ pb # <<>>
  /\ \/ pa = pb
     \/ IF ka = "d" THEN ~IsPrefix(pa, pb) /\ (kb = "-" \/ (kb = "d" /\ Empty(T, pb))) ELSE kb # "d"
RenameT(T, a, b) ==
  LET pa == Place(T, a) pb == Place(T, b) IN
  IF pa = pb THEN T
  ELSE {x \in T : ~IsPrefix(pa, x.p) /\ x.p # pb} \cup {[x EXCEPT !.p = pb \o SubSeq(x.p, Len(pa) + 1, Len(x.p))] : x \in Below(T, pa)}

(* listing: names, or for the recursive form paths relative to the listed directory; links are not entered *)
DotName(c, dots) == c \in dots
Names(T, z, nodot, dots) == {c \in {LastOf(x.p) : x \in Kids(T, Res(T, z, TRUE)[2])} : ~(nodot /\ c \in dots)}
Under(T, z, nodot, dots) ==
  LET d == Res(T, z, TRUE)[2]
      rel == {SubSeq(x.p, Len(d) + 1, Len(x.p)) : x \in Below(T, d)} \ {<<>>}
  IN {r \in rel : ~(nodot /\ \E i \in 1..Len(r) : r[i] \in dots)}

Refuse == dead' = TRUE /\ UNCHANGED tree
To(T) == tree' = T /\ UNCHANGED dead

(* ------------------------------- properties ------------------------------ *)
WellFormed(T) == /\ \A x \in T : x.p # <<>> /\ x.k \in {"d", "f", "l", "p"} /\ (Len(x.p) > 1 => Kind(T, Front(x.p)) = "d")
                 /\ Cardinality(Paths(T)) = Cardinality(T)
TreeOK == WellFormed(tree)
=============================================================================
