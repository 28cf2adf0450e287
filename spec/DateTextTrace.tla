---------------------------- MODULE DateTextTrace ---------------------------
EXTENDS DateText, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok" /\ UNCHANGED dead
Refused(e) == e.out = "exit" /\ e.msg /\ dead' = TRUE
Fields(v) == [y |-> v.y, mo |-> v.mo, d |-> v.d, h |-> v.h, mi |-> v.mi, s |-> v.s]
Ev(e) ==
  CASE e.op = "fmt"   -> IF e.len < Room THEN Refused(e) ELSE OK(e) /\ e.term /\ (Printable(e.v) => e.t = Text(e.form, e.v))
    [] e.op = "valid" -> OK(e) /\ e.ret = Valid(e.form, e.t)
    [] e.op = "parse" -> IF ~Valid(e.form, e.t) THEN Refused(e)
                         ELSE LET f == FieldsOf(e.t) IN OK(e) /\ Fields(e.r) = f /\ (InRange(f) => Reads(Wall(f), e.r))
    [] e.op = "nowtext" -> OK(e) /\ e.term /\ \E i \in 1..Len(e.cand) : e.t = Text(e.form, e.cand[i])
    [] e.op = "bad"   -> Refused(e)
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
