------------------------------ MODULE FsTreeMC ------------------------------
EXTENDS FsTree, TLC, Json
CONSTANTS Names1, MaxDepth, MaxEntries
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
P1 == {<<a>> : a \in Names1}
P2 == {<<a, b>> : a, b \in Names1}
P3 == {<<a, b, c>> : a, b, c \in Names1}
Z == P1 \cup P2 \cup (IF MaxDepth > 2 THEN P3 ELSE {})
ZD == Z \cup {<<"a", "..", "b">>, <<"a", "">>}
Tgt == {<<"..", "b">>, <<"b">>, <<"a">>}
(* the outside world prepares files and links *)
Put(x) == x.p \notin Paths(tree) /\ (Len(x.p) = 1 \/ Kind(tree, Front(x.p)) = "d") /\ To(tree \cup {x})
MCInit == tree = {} /\ dead = FALSE /\ hist = <<>>
MCNext ==
  \/ \E p \in P1 \cup P2 : H(<<"mk", "f", p, Cardinality(tree) + 1>>) /\ Put(File(p, "1"))
  \/ \E p \in P1 \cup P2, t \in Tgt : H(<<"mk", "l", p, t>>) /\ Put(Link(p, t))
  \/ \E z \in Z : H(<<"mkdir", z>>) /\ To(MkdirT(tree, z))
  \/ \E z \in ZD : H(<<"mkdirp", z>>) /\ To(Mkdirs(tree, z)[2])
  \/ \E z \in Z : H(<<"rmdir", z>>) /\ To(IF RmdirOK(tree, z) THEN Drop1(tree, z) ELSE tree)
  \/ \E z \in Z : H(<<"rmr", z>>) /\ To(IF RmdirsOK(tree, z) THEN Prune(tree, z) ELSE tree)
  \/ \E z \in Z : H(<<"remove", z>>) /\ To(IF RemoveOK(tree, z) THEN Drop1(tree, z) ELSE tree)
  \/ \E a, b \in Z : H(<<"rename", a, b>>) /\ To(IF RenameOK(tree, a, b) THEN RenameT(tree, a, b) ELSE tree)
  \/ \E z \in ZD : H(<<"query", z>>) /\ UNCHANGED vars
  \/ \E z \in ZD, r \in BOOLEAN : H(<<"list", z, r>>) /\ UNCHANGED vars
Bound == Cardinality(tree) <= MaxEntries /\ \A x \in tree : Len(x.p) <= MaxDepth
Emit == Cardinality(tree') <= MaxEntries /\ PrintT("BEH " \o ToJson(hist'))

(* recursive removal takes the named directory with all below it and nothing else, whatever links there are *)
RmrExact == \A z \in Z : RmdirsOK(tree, z) =>
              LET T == Prune(tree, z) IN WellFormed(T) /\ LType(T, z) = "-" /\ tree \ T = Below(tree, Place(tree, z))
(* success of mkdir with parents means the directory is there; nothing is lost *)
MkdirsExact == \A z \in ZD : LET m == Mkdirs(tree, z) IN WellFormed(m[2]) /\ tree \subseteq m[2] /\ (m[1] = (Type(m[2], z) = "d")) /\ (~m[1] => \A x \in m[2] \ tree : x.k = "d")
MkdirExact == \A z \in Z : WellFormed(MkdirT(tree, z)) /\ Cardinality(MkdirT(tree, z)) <= Cardinality(tree) + 1 /\ (MkdirOK(tree, z) = (Type(MkdirT(tree, z), z) = "d"))
(* renaming keeps every entry of the moved subtree and loses at most what it replaces *)
RenameExact == \A a, b \in Z : RenameOK(tree, a, b) =>
   LET T == RenameT(tree, a, b) IN /\ WellFormed(T) /\ Cardinality(T) \in {Cardinality(tree), Cardinality(tree) - 1}
                                   /\ (Place(tree, a) # Place(tree, b) => Kind(T, Place(tree, b)) = LType(tree, a))
(* a listing is the set of entries below; the recursive one refines the plain one *)
ListExact == \A z \in Z : Type(tree, z) = "d" => Names(tree, z, FALSE, {}) = {r[1] : r \in Under(tree, z, FALSE, {})}
=============================================================================
