------------------------------ MODULE StrTrace ------------------------------
(* Trace validation of recorded vt_str_t call histories against Str.         *)
EXTENDS Str, TLC, Json, IOUtils
VARIABLES sid, l
BG == INSTANCE Big
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == StrInit /\ sid \in 1..Len(Traces) /\ l = 1

Project(e) == \A o \in Slots :
    LET p == e.st[o + 1] IN
    /\ p.live = obj'[o].live
    /\ p.live => /\ p.view = obj'[o].view
                 /\ p.txt = obj'[o].txt /\ p.same
                 /\ p.len = Len(obj'[o].txt)
                 /\ p.cap = obj'[o].cap
                 /\ p.space = obj'[o].cap - Len(obj'[o].txt)
                 /\ p.empty = (obj'[o].txt = <<>>)
                 /\ p.view => p.under
NC(e, o) == e.st[o + 1].cap
Refused(e) == e.out \in {"exit", "abort"}
OK(e)      == e.out = "ok"
Gate(e, pre, act) == IF pre THEN OK(e) /\ act /\ Project(e) ELSE Refused(e) /\ Refuse
(* read-only query: changes nothing and allocates nothing *)
Query(e, pre, expect) == Gate(e, pre, Keep /\ e.ret = expect /\ e.na = 0)
(* replacement: grows at most to the result *)
Repl(e, t) == Gate(e, ReplFits(e.o, t), Live(e.o) /\ Grow(e.o, t, NC(e, e.o)))
Dst(e) == IF e.o >= 0 THEN e.o ELSE e.d

Ev(e) ==
  CASE e.op = "create"      -> Gate(e, CreatePre(e.z), Create(e.o, e.z, NC(e, e.o)))
    [] e.op = "create_len"  -> Gate(e, SizePre(e.n), CreateLen(e.o, e.n))
    [] e.op = "create_cap"  -> Gate(e, SizePre(e.n), CreateCap(e.o, e.n))
    [] e.op = "own"         -> Gate(e, TRUE, Own(e.o, e.z))
    [] e.op = "static"      -> Gate(e, TRUE, Static(e.o, e.z))
    [] e.op = "dup"         -> Gate(e, L(e.o) > 0, Dup(e.o, e.d, NC(e, e.d)))
    [] e.op = "destroy"     -> Gate(e, TRUE, Destroy(e.o) /\ (View(e.o) => e.z = Txt(e.o)))
    [] e.op = "shrink"      -> Gate(e, OwnedPre(e.o), Shrink(e.o))
    [] e.op = "clear"       -> Gate(e, TRUE, Clear(e.o))
    [] e.op = "reserve"     -> Gate(e, OwnedPre(e.o) /\ SizePre(e.n), Reserve(e.o, e.n))
    [] e.op = "resize"      -> Gate(e, OwnedPre(e.o) /\ SizePre(e.n), Resize(e.o, e.n))
    [] e.op = "cut"         -> Gate(e, AtPre(e.o, e.at), Cut(e.o, e.at) /\ e.ret = e.at)
    [] e.op = "fill"        -> Gate(e, TRUE, Fill(e.o, e.z) /\ e.ret = Len(e.z))
    [] e.op = "validate"    -> Gate(e, TRUE, Keep /\ e.ret = L(e.o))
    [] e.op = "set"         -> Gate(e, SetPre(e.o, Len(e.z)), Set(e.o, e.z, Len(e.z)))
    [] e.op = "set_n"       -> Gate(e, SetPre(e.o, e.n), Set(e.o, e.z, e.n))
    [] e.op = "set_at"      -> Gate(e, SetAtPre(e.o, e.z, e.at), SetAt2(e.o, e.z, e.at) /\ e.success)
    [] e.op = "set_c"       -> Gate(e, AtPre(e.o, e.at), SetC(e.o, e.c, e.at) /\ e.success)
    [] e.op = "append"      -> Gate(e, AppendPre(e.o, Len(e.z)), AppendZ(e.o, e.z, NC(e, e.o)))
    [] e.op = "append_n"    -> Gate(e, AppendPre(e.o, e.n), e.n <= Len(e.z) /\ AppendZ(e.o, Take(e.z, e.n), NC(e, e.o)))
    [] e.op = "appendf"     -> LET t == FmtText(e.k, e.z, e.num) IN
                               Gate(e, Fits(e.o, L(e.o) + Len(t)), AppendZ(e.o, t, NC(e, e.o)) /\ e.success)
    [] e.op = "insert"      -> Gate(e, InsertPre(e.o, e.z, e.at), InsertZ(e.o, e.z, e.at, NC(e, e.o)))
    [] e.op = "insert_n"    -> Gate(e, InsertNPre(e.o, e.at, e.n), e.n <= Len(e.z) /\ InsertZ(e.o, Take(e.z, e.n), e.at, NC(e, e.o)))
    [] e.op = "insertf"     -> LET t == FmtText(e.k, e.z, e.num) IN
                               Gate(e, InsertPre(e.o, t, e.at), InsertZ(e.o, t, e.at, NC(e, e.o)) /\ e.success)
    [] e.op = "insert_before" -> Gate(e, BeforePre(e.o, e.sub, e.z), InsBefore(e.o, e.sub, e.z, NC(e, e.o)))
    [] e.op = "insert_after"  -> Gate(e, AfterPre(e.o, e.sub, e.z), InsAfter(e.o, e.sub, e.z, NC(e, e.o)))
    [] e.op = "remove"      -> Gate(e, RemovePre(e.o, e.at, e.n), Remove(e.o, e.at, e.n))
    [] e.op = "remove_first"-> Gate(e, TRUE, InPlace(e.o, RemoveFirstSub(Txt(e.o), e.z)) /\ e.ret = RemFirstRet(e.o, e.z))
    [] e.op = "remove_last" -> Gate(e, TRUE, InPlace(e.o, RemoveLastSub(Txt(e.o), e.z)) /\ e.ret = RemFirstRet(e.o, e.z))
    [] e.op = "remove_all"  -> Gate(e, TRUE, InPlace(e.o, RemoveAllSub(Txt(e.o), e.z)) /\ e.ret = "ok")
    [] e.op = "remove_c"    -> Gate(e, TRUE, InPlace(e.o, RemoveChars(Txt(e.o), e.z)))
    [] e.op = "replace"     -> Repl(e, ReplaceAllSub(Txt(e.o), e.sub, e.r))
    [] e.op = "replace_first" -> IF ~NoRep(e.sub, e.r) /\ ~NeedlePre(e.o, e.sub) THEN Refused(e) /\ Refuse
                                 ELSE Repl(e, ReplaceFirstSub(Txt(e.o), e.sub, e.r))
    [] e.op = "replace_last"-> Repl(e, ReplaceLastSub(Txt(e.o), e.sub, e.r))
    [] e.op = "replace_c"   -> Gate(e, ReplCPre(e.sub, e.r), InPlace(e.o, ReplaceChars(Txt(e.o), e.sub, e.r)))
    [] e.op = "strip"       -> Gate(e, TRUE, InPlace(e.o, StripSpace(Txt(e.o))))
    [] e.op = "strip_punct" -> Gate(e, TRUE, InPlace(e.o, StripPunct(Txt(e.o))))
    [] e.op = "strip_c"     -> Gate(e, TRUE, InPlace(e.o, StripSet(Txt(e.o), e.z)))
    [] e.op = "upper"       -> Gate(e, TRUE, InPlace(e.o, [i \in 1..L(e.o) |-> Upper(Txt(e.o)[i])]))
    [] e.op = "lower"       -> Gate(e, TRUE, InPlace(e.o, [i \in 1..L(e.o) |-> Lower(Txt(e.o)[i])]))
    [] e.op = "find"        -> Query(e, NeedlePre(e.o, e.z), FindSub(Txt(e.o), e.z))
    [] e.op = "index_find"  -> Query(e, NeedlePre(e.o, e.z), FindSub(Txt(e.o), e.z))
    [] e.op = "can_find"    -> Query(e, NeedlePre(e.o, e.z), CountSub(Txt(e.o), e.z))
    [] e.op = "index_of"    -> Query(e, TRUE, IF e.c = 0 THEN L(e.o) ELSE FindFirst(Txt(e.o), e.c))
    [] e.op = "starts_with" -> Query(e, TRUE, StartsWith(Txt(e.o), e.z))
    [] e.op = "ends_with"   -> Query(e, TRUE, EndsWith(Txt(e.o), e.z))
    [] e.op = "is_numeric"  -> Query(e, TRUE, IsNumericText(Txt(e.o)))
    [] e.op = "info"        -> Gate(e, TRUE, Keep /\ e.ret = L(e.o) /\ e.e = (L(e.o) = 0) /\ e.okay /\ e.na = 0)
    [] e.op = "equals"      -> Query(e, TRUE, Txt(e.o) = Txt(e.d))
    [] e.op = "equals_z"    -> Gate(e, TRUE, Keep /\ e.ret = (e.z = e.y))
    [] e.op = "equals_n"    -> Gate(e, e.n > 0 /\ e.n <= Len(e.z) /\ e.n <= Len(e.y), Keep /\ e.ret = (Take(e.z, e.n) = Take(e.y, e.n)))
    [] e.op = "numeric_z"   -> Gate(e, e.n > 0, e.n <= Len(e.z) /\ Keep /\ e.ret = IsNumericText(Take(e.z, e.n)))
    [] e.op = "split"       -> Gate(e, NeedlePre(e.o, e.sep),
                                 /\ Keep
                                 /\ IF CountSub(Txt(e.o), e.sep) = 0
                                    THEN e.null /\ e.n = e.stale
                                    ELSE /\ ~e.null /\ e.given = e.list /\ e.wf
                                         /\ e.parts = SplitBy(Txt(e.o), e.sep))
    [] e.op = "between"     -> IF ~BetweenOK(e.z, e.zl, e.zr) THEN OK(e) /\ e.null /\ Keep /\ Project(e)
                               ELSE Gate(e, TRUE, /\ ~e.null /\ e.given = (e.o >= 0)
                                                  /\ Result(e.o, e.d, BetweenTxt(e.z, e.zl, e.zr), NC(e, Dst(e))))
    [] e.op \in {"join", "join_n"} ->
                               LET t == (IF e.o >= 0 THEN Txt(e.o) ELSE <<>>) \o JoinBy(e.parts, e.sep) IN
                               Gate(e, JoinPre(e.parts, e.sep) /\ (e.o >= 0 => Fits(e.o, Len(t))),
                                    /\ ~e.null /\ e.given = (e.o >= 0)
                                    /\ Result(e.o, e.d, t, NC(e, Dst(e)))
                                    /\ (e.o >= 0 => GrowOK(e.o, Len(t), NC(e, e.o))))
    [] e.op = "pop_first"   -> Gate(e, TRUE, /\ e.null = (e.sr < 0 /\ ~PopFirstOK(e.o, e.sep)) /\ e.given = (e.sr >= 0)
                                             /\ Pop(e.o, e.sr, e.d, PopFirstOK(e.o, e.sep), PopFirstPart(e.o, e.sep), PopFirstRest(e.o, e.sep),
                                                    NC(e, IF e.sr >= 0 THEN e.sr ELSE e.d)))
    [] e.op = "pop_last"    -> Gate(e, TRUE, /\ e.null = (e.sr < 0 /\ ~PopLastOK(e.o, e.sep)) /\ e.given = (e.sr >= 0)
                                             /\ Pop(e.o, e.sr, e.d, PopLastOK(e.o, e.sep), PopLastPart(e.o, e.sep), PopLastRest(e.o, e.sep),
                                                    NC(e, IF e.sr >= 0 THEN e.sr ELSE e.d)))
    [] e.op = "slide_front" -> Gate(e, TRUE, Slide(e.o) /\ e.ret = SlideFrontRet(e.o))
    [] e.op = "slide_back"  -> Gate(e, TRUE, Slide(e.o) /\ e.ret = SlideBackRet(e.o))
    [] e.op = "slide_reset" -> Gate(e, TRUE, SlideReset(e.o))
    [] e.op = "apply"       -> Gate(e, TRUE, Apply(e.o, e.z) /\ e.seen = Txt(e.o) /\ e.idx = [i \in 1..L(e.o) |-> i - 1])
    \* a size no memory can hold (2^60 bytes and more): never carried out, whatever its product wraps to
    [] e.op = "vast"       -> (IF BG!Lss(BG!Times(IF e.how = "r" THEN BG!Plus(e.cap, e.n) ELSE e.n, e.esz), BG!Pow2(60)) THEN FALSE
                              ELSE Refused(e) /\ Refuse)
    [] e.op = "nullarg"     -> Refused(e) /\ Refuse
    [] e.op = "fin"         -> OK(e) /\ Keep /\ (\A o \in Slots : ~Live(o)) /\ e.blocks = 0
    [] OTHER                -> FALSE

(* an allocation was made to fail during this call: it must end the process  *)
(* with a failing status and a message                                        *)
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
