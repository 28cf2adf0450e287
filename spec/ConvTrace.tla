----------------------------- MODULE ConvTrace ------------------------------
EXTENDS Conv, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok" /\ UNCHANGED dead
Refused(e) == e.out = "exit" /\ e.msg /\ dead' = TRUE
Ev(e) ==
  CASE e.op = "from" -> OK(e) /\ e.blocks = 0 /\ (IF e.ty \in IntTypes THEN ReadsInt(e.ty, e.t, e.r) ELSE ReadsFloat(e.ty, e.t, e.m, e.e))
    [] e.op = "to"   -> IF e.ty \in IntTypes
                        THEN IF e.len >= Room(TextOf(e.v)) THEN OK(e) /\ e.t = TextOf(e.v) ELSE Refused(e)
                        ELSE IF e.out = "ok" THEN OK(e) /\ WritesFloat(e.t, e.m, e.e) /\ e.len >= Room(e.t) ELSE Refused(e) /\ e.need > e.len
    [] e.op = "num"  -> OK(e) /\ e.ret = IsNumeric(e.t)
    [] e.op = "bad"  -> Refused(e)
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
