---------------------------- MODULE FsTreeTrace ----------------------------
(* Recorded filesystem calls: every event carries the whole tree found on     *)
(* disk after the call (walked by the harness, not by the library), whether   *)
(* memory or descriptors were left behind, and whether the call tried to      *)
(* change anything outside of its scratch directory.                          *)
EXTENDS FsTree, TLC, Json, IOUtils
CONSTANT Dots
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == tree = {} /\ dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Refused(e) == e.out \in {"exit", "abort"}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Disk(e) == SetOf(e.tree)
Clean(e) == ~e.esc /\ e.leak = 0 /\ ~e.fds
(* the call reports r and leaves T behind *)
Does(e, r, T) == OK(e) /\ Clean(e) /\ e.ret = r /\ Disk(e) = T /\ To(T)
(* a system call failed on the way: success still means done, failure leaves one of the sets in P *)
Faulted(e) == "flt" \in DOMAIN e
Maybe(e, r, T, P) == IF Faulted(e) THEN OK(e) /\ Clean(e) /\ (IF e.ret THEN r /\ Disk(e) = T ELSE P) /\ To(Disk(e))
                     ELSE Does(e, r, T)
Same(e) == Disk(e) = tree
Z(e) == e.z
Listing(e) == e.items
AllOnce(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(S)
Ev(e) ==
  CASE e.op = "mk"     -> OK(e) /\ Clean(e) /\ WellFormed(Disk(e)) /\ To(Disk(e))
    [] e.op = "exists" -> Does(e, Exists(tree, Z(e)), tree)
    [] e.op = "isdir"  -> Does(e, Type(tree, Z(e)) = "d", tree)
    [] e.op = "isfile" -> Does(e, Type(tree, Z(e)) = "f", tree)
    [] e.op = "size"   -> OK(e) /\ Clean(e) /\ Same(e) /\ UNCHANGED vars
                          /\ CASE Type(tree, Z(e)) = "-" -> e.ret = "-1"
                               [] Type(tree, Z(e)) = "f" -> e.ret = At(tree, Res(tree, Z(e), TRUE)[2]).n
                               [] OTHER -> e.ret # "-1"
    [] e.op = "mkdir"  -> Maybe(e, MkdirOK(tree, Z(e)), MkdirT(tree, Z(e)), Same(e))
    [] e.op = "mkdirp" -> LET m == Mkdirs(tree, Z(e)) z == Solid(Z(e)) IN
                          Maybe(e, m[1], m[2], \E i \in 0..Len(z) : Disk(e) = MkdirsT(tree, SubSeq(z, 1, i), 1)[2])
    [] e.op = "rmdir"  -> Maybe(e, RmdirOK(tree, Z(e)), IF RmdirOK(tree, Z(e)) THEN Drop1(tree, Z(e)) ELSE tree, Same(e))
    [] e.op = "remove" -> Maybe(e, RemoveOK(tree, Z(e)), IF RemoveOK(tree, Z(e)) THEN Drop1(tree, Z(e)) ELSE tree, Same(e))
    [] e.op = "rmr"    -> LET ok == RmdirsOK(tree, Z(e)) IN
                          Maybe(e, ok, IF ok THEN Prune(tree, Z(e)) ELSE tree,
                                IF ok THEN Disk(e) \subseteq tree /\ (tree \ Disk(e)) \subseteq Below(tree, Place(tree, Z(e))) /\ Place(tree, Z(e)) \in Paths(Disk(e))
                                ELSE Same(e))
    [] e.op = "rename" -> LET ok == RenameOK(tree, Z(e), e.y) IN Maybe(e, ok, IF ok THEN RenameT(tree, Z(e), e.y) ELSE tree, Same(e))
    [] e.op = "list"   -> /\ OK(e) /\ Clean(e) /\ Same(e) /\ UNCHANGED vars
                          /\ IF Type(tree, Z(e)) # "d" \/ (Faulted(e) /\ e.ret = "null") THEN e.ret = "null" /\ (e.given => e.kept)
                             ELSE /\ e.ret = (IF e.given THEN "given" ELSE "new")
                                  /\ AllOnce(e.items, {<<c>> : c \in Names(tree, Z(e), e.nodot, Dots)})
    [] e.op = "listr"  -> /\ OK(e) /\ Clean(e) /\ Same(e) /\ UNCHANGED vars
                          /\ IF Type(tree, Z(e)) # "d" \/ (Faulted(e) /\ e.ret = "null") THEN e.ret = "null" /\ (e.given => e.kept)
                             ELSE /\ e.ret = (IF e.given THEN "given" ELSE "new") /\ e.kept
                                  /\ AllOnce(e.items, {Z(e) \o r : r \in Under(tree, Z(e), e.nodot, Dots)})
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
