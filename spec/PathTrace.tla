----------------------------- MODULE PathTrace -----------------------------
EXTENDS Path, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == cur = <<>> /\ res = <<>> /\ dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Refused(e) == e.out \in {"exit", "abort"}
Project(e) == e.cur = cur' /\ e.res = res' /\ e.same
Gate(e, pre, act) == IF pre THEN OK(e) /\ act /\ Project(e) ELSE Refused(e) /\ Refuse
Keep == UNCHANGED vars
(* a returned string: the given one, or a fresh one holding t *)
Ret(e, t) == IF e.given THEN e.ret = "given" ELSE e.ret = "new" /\ e.txt = t
Ev(e) ==
  CASE e.op = "set"      -> Gate(e, TRUE, Set(e.t))
    [] e.op = "setres"   -> Gate(e, TRUE, res' = e.t /\ UNCHANGED <<cur, dead>>)
    [] e.op = "pop"      -> Gate(e, TRUE, Pop)
    [] e.op = "validate" -> Gate(e, TRUE, Validate)
    [] e.op = "base"     -> Gate(e, TRUE, BaseInto(e.given) /\ IF HasSep(cur) THEN Ret(e, Base(cur)) ELSE e.ret = (IF e.given THEN "given" ELSE "null"))
    [] e.op = "build"    -> Gate(e, BuildPre(e.parts), BuildInto(e.given, e.parts) /\ Ret(e, Build(e.parts)))
    [] e.op = "expand"   -> Gate(e, cur # <<>>, Keep /\ e.ret = "new" /\ e.txt = Expand(cur, e.set, e.home))
    [] e.op = "where"    -> Gate(e, TRUE, Keep /\ e.ret = "new" /\ e.txt = e.want)                  \* current directory, own program
    [] e.op = "nowhere"  -> Gate(e, TRUE, Keep /\ e.ret = "null")                                   \* the current directory is gone
    [] e.op = "badcall"  -> Refused(e) /\ Refuse
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
