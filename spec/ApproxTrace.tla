----------------------------- MODULE ApproxTrace -----------------------------
EXTENDS Approx, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == drawn = 0 /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Ev(e) ==
  CASE e.op = "u64"    -> OK(e) /\ Same
    [] e.op = "f32"    -> OK(e) /\ Same /\ InBound(e.b, e.ret)
    [] e.op = "uni"    -> OK(e) /\ Same /\ InRange(e.lo, e.hi, e.ret)
    [] e.op = "norm"   -> OK(e) /\ Draw /\ NormalOf(e.mu, e.sd, e.x, e.ret)
    [] e.op = "manyf"  -> OK(e) /\ Same /\ InBound(e.b, e.min) /\ InBound(e.b, e.max) /\ (IF Wide(OfInt(0), e.b) THEN SpreadOf(e.counts, e.n) ELSE TRUE)
    [] e.op = "manyu"  -> OK(e) /\ Same /\ InRange(e.lo, e.hi, e.min) /\ InRange(e.lo, e.hi, e.max) /\ (IF Wide(e.lo, e.hi) THEN SpreadOf(e.counts, e.n) ELSE TRUE)
    [] e.op = "manyn"  -> OK(e) /\ Draw /\ Fin(e.min) /\ Fin(e.max) /\ SpreadOf(e.counts, e.n)
    [] e.op = "manyx"  -> OK(e) /\ Same /\ SpreadOf(e.counts, e.n)
    [] e.op = "map"    -> OK(e) /\ Same /\ MapOf(e.x, e.xmin, e.xmax, e.omin, e.omax, e.ret)
    [] e.op = "sqrt"   -> OK(e) /\ Same /\ RootOf(e.v, e.ret)
    [] e.op = "isqrt"  -> OK(e) /\ Same /\ InvRootOf(e.v, e.ret)
    [] e.op = "close"  -> OK(e) /\ Same /\ CloseOf(e.x, e.y, e.t, e.ret)
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
