----------------------------- MODULE AllocTrace -----------------------------
(* Recorded histories of a real allocator, used directly and by containers.  *)
(* Each event carries the allocator calls made during it (c), the resulting  *)
(* statistics, the number of heap blocks held on the allocator's behalf, and *)
(* whether every live block still holds what was stored in it.               *)
EXTENDS Alloc, TLC, Json, IOUtils
VARIABLES sid, l
BG == INSTANCE Big
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == AllocInit /\ sid \in 1..Len(Traces) /\ l = 1

OK(e) == e.out = "ok"
Refused(e) == e.out \in {"exit", "abort"}

(* one allocator call: legal in s, and with the promised effect on the block's contents *)
CallOK(s, c) ==
  CASE c.k = "a" -> c.id \notin IdsOf(s) /\ c.n > 0 /\ c.z = c.n                                   \* zero-filled
    [] c.k = "r" -> c.id \in IdsOf(s) /\ c.n > 0 /\ c.keep = Min2(c.n, s.blk[c.id].n)              \* contents kept
    [] c.k = "f" -> c.id \in IdsOf(s) /\ c.gone                                                    \* really released
    [] OTHER -> FALSE
Do(s, c, o) == IF c.k = "a" THEN DoAlloc(s, c.id, c.n, o) ELSE IF c.k = "r" THEN DoRealloc(s, c.id, c.n) ELSE DoFree(s, c.id)
RECURSIVE Run(_, _, _, _)
Run(s, cs, i, o) == IF i > Len(cs) THEN [ok |-> TRUE, s |-> s]
                    ELSE IF ~CallOK(s, cs[i]) THEN [ok |-> FALSE, s |-> s] ELSE Run(Do(s, cs[i], o), cs, i + 1, o)

Project(e) == /\ e.st = <<S'.a, S'.r, S'.f, S'.cur, S'.freed>>
              /\ e.raw = Cardinality(DOMAIN S'.blk)
              /\ e.intact /\ e.disjoint
Own(o) == {i \in Ids : S.blk[i].o = o}
Apply(e, o) == LET r == Run(S, e.c, 1, o) IN r.ok /\ S' = r.s /\ UNCHANGED <<up, dead>> /\ Project(e)

Ev(e) ==
  CASE e.op = "alloc"   -> IF AllocPre(e.n) THEN OK(e) /\ Len(e.c) = 1 /\ e.c[1].k = "a" /\ e.c[1].n = e.n /\ Apply(e, 0) ELSE Refused(e) /\ Refuse
    [] e.op = "realloc" -> IF AllocPre(e.n) THEN OK(e) /\ Len(e.c) = 1 /\ e.c[1].k = "r" /\ e.c[1].n = e.n /\ e.c[1].id = e.id /\ Apply(e, 0) ELSE Refused(e) /\ Refuse
    [] e.op = "free"    -> OK(e) /\ Len(e.c) = 1 /\ e.c[1].k = "f" /\ e.c[1].id = e.id /\ Apply(e, 0)
    \* many allocations or frees in a row
    [] e.op = "bulk"    -> OK(e) /\ Apply(e, 0)
    \* a block beyond 32 bits is allocated, reallocated and freed: last call of its history
    [] e.op = "huge"    -> /\ Refuse
                           \* a machine with too little address space may refuse it
                           /\ (e.out # "exit" =>
                               (/\ OK(e) /\ e.raw = Cardinality(Ids)
                                /\ e.cur1 = BG!Plus(e.cur, e.a) /\ e.freed1 = e.freed
                                /\ e.cur2 = BG!Plus(e.cur, e.b)
                                /\ e.freed2 = (IF BG!Lss(e.b, e.a) THEN BG!Plus(e.freed, BG!Minus(e.a, e.b)) ELSE e.freed)
                                /\ e.cur3 = e.cur /\ e.freed3 = BG!Plus(e.freed2, e.b)))
    [] e.op = "badcall" -> Refused(e) /\ Refuse
    \* a container is created: it owns something, and touches nothing else
    [] e.op = "cnew"    -> OK(e) /\ Own(e.o) = {} /\ (\A i \in 1..Len(e.c) : e.c[i].k = "a") /\ Apply(e, e.o) /\ Len(e.c) > 0
    \* a string or container made elsewhere in the library with this allocator: all its memory comes from it
    [] e.op = "clib"    -> OK(e) /\ Own(e.o) = {} /\ Apply(e, e.o) /\ (\E i \in DOMAIN S'.blk : S'.blk[i].o = e.o)
                           /\ \A i \in Ids : i \in DOMAIN S'.blk /\ S'.blk[i] = S.blk[i]
    \* a duplicate made without an allocator, used and destroyed: the allocator is not involved
    [] e.op = "coff"    -> OK(e) /\ e.c = <<>> /\ Apply(e, e.o)
    \* a container call: its allocator calls concern its own blocks only
    [] e.op = "cop"     -> /\ OK(e) /\ Apply(e, e.o)
                           /\ \A i \in Ids \ Own(e.o) : i \in DOMAIN S'.blk /\ S'.blk[i] = S.blk[i]
    \* destroying a container gives back everything it owns and nothing else
    [] e.op = "cdel"    -> OK(e) /\ Apply(e, e.o) /\ DOMAIN S'.blk = Ids \ Own(e.o)
    [] e.op = "print"   -> OK(e) /\ e.c = <<>> /\ Apply(e, 0) /\ e.txt = <<S.a, S.r, S.f, S.cur + S.freed, S.cur, S.freed>>
    [] e.op = "destroy" -> OK(e) /\ Destroy /\ e.blocks = 0
    [] e.op = "new"     -> OK(e) /\ ~up /\ up' = TRUE /\ S' = Empty /\ UNCHANGED dead /\ Project(e)
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
