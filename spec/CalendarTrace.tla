---------------------------- MODULE CalendarTrace ---------------------------
EXTENDS Calendar, TLC, Json, IOUtils, FiniteSets
VARIABLES sid, l
tvars == <<dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
KnownDiff == IOEnv.KNOWN_DIFF = "1"
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok" /\ UNCHANGED dead
Refused(e) == e.out = "exit" /\ e.msg /\ dead' = TRUE
Fields(v) == [y |-> v.y, mo |-> v.mo, d |-> v.d, h |-> v.h, mi |-> v.mi, s |-> v.s]
Edge(v) == v.s = 60                                   \* a leap second may count for the next day
Exact(e, x) == LET p == Parts(x) IN e.r = [d |-> p.d, h |-> p.h, mi |-> p.mi, s |-> p.s]
Ev(e) ==
  CASE e.op = "create" -> LET c == Created(e.a) IN
         /\ OK(e) /\ Fields(e.r) = c
         /\ e.r.wd = IF e.a.wd \in 1..7 THEN e.a.wd ELSE IF Edge(c) THEN e.r.wd ELSE WeekDay(Wall(c)[1])
         /\ e.r.yd = IF e.a.yd \in 1..366 THEN e.a.yd ELSE IF Edge(c) THEN e.r.yd ELSE YearDay(Wall(c)[1])
    [] e.op = "facts" -> LET w == Wall(e.v) IN
         /\ OK(e) /\ e.wday = WeekDay(w[1]) /\ e.yday = YearDay(w[1])
         /\ e.leap = Leap(Eff(e.v.y)) /\ e.diy = YearDays(Eff(e.v.y))
         /\ e.dim = MonthDays(Eff(e.v.y), Clamp(e.v.mo, 1, 12))
    [] e.op = "years" -> LET Y == e.lo..e.hi IN
         /\ OK(e) /\ {e.leap[i] : i \in 1..Len(e.leap)} = {y \in Y : Leap(y)}
         /\ (\A y \in Y : LET i == y - e.lo + 1 IN e.diy[i] = YearDays(y) /\ e.dim[i] = [m \in 1..12 |-> MonthDays(y, m)] /\ e.wd[i] = WeekDay(DayNo(y, 3, 1)))
    [] e.op = "to"   -> OK(e) /\ SecsOK(Zone(e.z), Wall(e.v), e.r)
    [] e.op = "from" -> OK(e) /\ InRange(e.r) /\ LET w == Wall(e.r) IN Reads(w, e.r) /\ \E u \in Instants(Zone(e.z), w) : Epoch(u) = e.x
    [] e.op = "op"   -> OK(e) /\ MovedOK(Zone(e.z), e.v, e.q, e.r)
    [] e.op = "dif"  -> LET ds == Diffs(Zone(e.z), Wall(e.v), Wall(e.w)) IN
                        /\ OK(e)
                        /\ ds # {} => /\ e.secs \in ds
                                      /\ (\E x \in ds : e.mins = Quot(x, Of(60))) /\ (\E x \in ds : e.hours = Quot(x, Of(3600))) /\ (\E x \in ds : e.days = Quot(x, Of(86400)))
                                      /\ (Leq(Abs(e.days), Of(32767)) => ((\E x \in ds : Exact(e, x)) \/ (KnownDiff /\ (Cardinality(ds) > 1 \/ e.r = e.flt))))
    [] e.op = "now"  -> OK(e) /\ InRange(e.r) /\ Reads(Wall(e.r), e.r) /\ \E u \in Instants(Zone(e.z), Wall(e.r)) : Leq(e.t0, Epoch(u)) /\ Leq(Epoch(u), e.t1)
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
