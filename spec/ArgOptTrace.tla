---------------------------- MODULE ArgOptTrace -----------------------------
EXTENDS ArgOpt, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok" /\ UNCHANGED dead
Refused(e) == e.out = "exit" /\ e.msg /\ dead' = TRUE
Ev(e) ==
  CASE e.op = "parse" -> LET o == Outcome(e.tab, e.args) IN OK(e) /\ e.ret = o.ret /\ After(e.tab, e.before, o.as, e.after) /\ e.leak = 0
    [] e.op = "help"  -> OK(e) /\ e.said = HelpText(e.tab, e.head, e.foot)
    [] e.op = "bad"   -> Refused(e)
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN Refused(e) ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
