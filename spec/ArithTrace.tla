----------------------------- MODULE ArithTrace -----------------------------
EXTENDS Arith, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == mem = <<>> /\ dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Refused(e) == e.out \in {"exit", "abort"}
Seen(e) == e.mem = mem'
Keep == UNCHANGED vars
Ev(e) ==
  CASE e.op = "mem"     -> OK(e) /\ mem' = e.mem /\ UNCHANGED dead
    [] e.op = "memmove" -> OK(e) /\ Move(e.d, e.q, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "memcopy" -> OK(e) /\ Move(e.d, e.q, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "memset"  -> OK(e) /\ Fill(e.d, e.v, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "memcmp"  -> OK(e) /\ Keep /\ Seen(e) /\ e.ret = Equal(e.d, e.q, e.n)
    [] e.op = "gswap"   -> OK(e) /\ Swap(e.d, e.q, e.n) /\ Seen(e) /\ e.blocks = 0
    [] e.op = "large"    -> OK(e) /\ mem' = e.mem /\ UNCHANGED dead
    [] e.op = "lmemmove" -> OK(e) /\ LMove(e.d, e.q, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "lmemcopy" -> OK(e) /\ LMove(e.d, e.q, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "lmemset"  -> OK(e) /\ LFill(e.d, e.v, e.n) /\ Seen(e) /\ e.ret = e.d
    [] e.op = "lmemcmp"  -> OK(e) /\ Keep /\ Seen(e) /\ e.ret = LEqual(e.d, e.q, e.n)
    [] e.op = "lgswap"   -> OK(e) /\ LSwap(e.d, e.q, e.n) /\ Seen(e) /\ e.blocks = 0
    [] e.op = "pswap"   -> OK(e) /\ Keep /\ e.a1 = e.b0 /\ e.b1 = e.a0
    [] e.op = "min"     -> OK(e) /\ Keep /\ e.ret = MinB(e.x, e.y)
    [] e.op = "max"     -> OK(e) /\ Keep /\ e.ret = MaxB(e.x, e.y)
    [] e.op = "clamp"   -> OK(e) /\ Keep /\ e.ret = ClampB(e.x, e.lo, e.hi)
    [] e.op = "pal"     -> OK(e) /\ Keep /\ e.ret = IsPal(e.x)
    [] e.op = "gcd"     -> OK(e) /\ Keep /\ e.ret = GcdB(e.x, e.y)
    [] e.op = "lcm"     -> OK(e) /\ Keep /\ e.ret = LcmB(e.x, e.y)
    [] e.op = "status"  -> /\ OK(e) /\ Keep /\ Len(e.id) = Len(e.name)
                           /\ \A i \in 1..Len(e.id) : e.name[i] = e.id[i]                \* its own name
                           /\ \A i, j \in 1..Len(e.id) : e.name[i] = e.name[j] => i = j  \* one to one
                           /\ \A i \in 1..Len(e.beyond) : e.beyond[i] = "NULL"
    [] e.op = "vmem"    -> OK(e) /\ Keep /\ e.zeroed /\ e.kept /\ e.held /\ e.blocks = 0
    [] e.op = "badcall" -> Refused(e) /\ Refuse
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
