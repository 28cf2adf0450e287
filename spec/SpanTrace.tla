----------------------------- MODULE SpanTrace -----------------------------
EXTENDS Span, Big, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == SpanInit(<<>>) /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Refused(e) == e.out \in {"exit", "abort"}
Project(e) == /\ e.arr = arr' /\ e.na = 0
              /\ \A s \in Slots : sp'[s].on => e.sp[s + 1] = SubSeq(arr', sp'[s].off + 1, sp'[s].off + sp'[s].len)
Gate(e, pre, act) == IF pre THEN OK(e) /\ act /\ Project(e) ELSE Refused(e) /\ Refuse
Keep == UNCHANGED vars
Ev(e) ==
  CASE e.op = "base" -> OK(e) /\ arr' = e.arr /\ sp' = [s \in Slots |-> None] /\ UNCHANGED dead
    [] e.op = "make" -> Gate(e, RangePre(e.from, e.to), Make(e.o, e.from, e.to) /\ e.len = e.to - e.from)
    [] e.op = "get"  -> Gate(e, IdxPre(e.o, e.i), Get(e.o, e.i) /\ e.ret = At(e.o, e.i))
    [] e.op = "set"  -> Gate(e, IdxPre(e.o, e.i), Set(e.o, e.i, e.v))
    [] e.op = "poke" -> Gate(e, TRUE, Poke(e.i, e.v))
    [] e.op = "badcall" -> Refused(e) /\ Refuse
    \* index maps on numbers of any size: quotient and remainder are characterised by n*q + r
    [] e.op = "i2" -> OK(e) /\ Keep /\ e.ret = Plus(Times(e.r, e.nc), e.c)
    [] e.op = "u2" -> OK(e) /\ Keep /\ Lss(e.c, e.nc) /\ Plus(Times(e.r, e.nc), e.c) = e.idx
    [] e.op = "i3" -> OK(e) /\ Keep /\ e.ret = Plus(Times(e.d, Times(e.nr, e.nc)), Plus(Times(e.r, e.nc), e.c))
    [] e.op = "u3" -> OK(e) /\ Keep /\ Lss(e.c, e.nc) /\ Lss(e.r, e.nr) /\ e.idx = Plus(Times(e.d, Times(e.nr, e.nc)), Plus(Times(e.r, e.nc), e.c))
    \* a range beyond 32 bits
    [] e.op = "far" -> /\ OK(e) /\ Keep /\ e.hit /\ Plus(e.len, e.from) = e.to /\ e.len2 = e.len
                       /\ e.off = Times(Plus(e.from, e.at), e.esz)
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
