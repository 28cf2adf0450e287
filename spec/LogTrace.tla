------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<route, dfile, don, nofd, dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == LogInit /\ sid \in 1..Len(Traces) /\ l = 1
Files == {"a", "bb", "dir/a-longer-name"}
Sinks == Files \cup {"err", "out"}
Names == << <<73, 78, 70, 79>>, <<87, 65, 82, 78>>, <<68, 69, 66, 85, 71>>, <<69, 82, 82, 79, 82>>, <<70, 65, 84, 65, 76>>,
            <<65, 83, 83, 69, 82, 84, 32, 70, 65, 73, 76, 85, 82, 69>> >>
Pad5(t) == [i \in 1..(IF Len(t) < 5 THEN 5 - Len(t) ELSE 0) |-> 32] \o t
Sp == <<32>>  Colon == <<58, 32>>  Nl == <<10>>
Brack(t) == <<91>> \o t \o <<93>>
LogLine(e, st) == st \o Sp \o Pad5(Names[e.l + 1]) \o Sp \o (IF e.hasx THEN Brack(e.x) \o Sp ELSE <<>>) \o e.loc \o Colon \o e.body \o Nl
DbgLine(e, st) == IF e.line THEN st \o Sp \o e.subj \o Sp \o Brack(e.x) \o Sp \o e.loc \o Colon \o e.body \o Nl ELSE st \o Sp \o e.subj \o Sp \o e.body
EndsWith(t, u) == Len(t) >= Len(u) /\ SubSeq(t, Len(t) - Len(u) + 1, Len(t)) = u
(* a note that a file could not be opened, in the library's own words *)
Note(t) == IF t = <<>> THEN TRUE ELSE Len(t) <= 6000 /\ t[Len(t)] = 10
Quiet(e, S) == \A s \in Sinks \ S : e.add[s] = <<>>
Stamped(e, P(_)) == \E i \in 1..Len(e.stamps) : P(e.stamps[i])
(* sink s got exactly text Line (given the time); "none" and "full": nobody sees it *)
Gets(e, s, Line(_)) == IF s \in Sinks THEN Stamped(e, LAMBDA st : e.add[s] = Line(st)) /\ Quiet(e, {s}) ELSE Quiet(e, {})
GetsNoted(e, s, ns, Line(_)) == \* s = "err"
  /\ Stamped(e, LAMBDA st : LET ln == Line(st) IN
        IF ns = "err" THEN EndsWith(e.add.err, ln) /\ Note(SubSeq(e.add.err, 1, Len(e.add.err) - Len(ln))) ELSE e.add.err = ln)
  /\ Quiet(e, {"err", ns})
  /\ (ns \in Files => Note(e.add[ns]))
Ends(e, die) == IF die THEN e.out = "exit" ELSE e.out = "ok" /\ ~e.fds
Cfg(e) == e.out = "ok" /\ ~e.fds /\ Quiet(e, {})
Ev(e) ==
  CASE e.op = "nofd"     -> NoFd(e.on)
    [] e.op = "route"    -> IF e.l \in Levels THEN Cfg(e) /\ Route(e.l, e.f) ELSE e.out = "exit" /\ Die
    [] e.op = "routeall" -> Cfg(e) /\ RouteAll(e.f)
    [] e.op = "dfile"    -> Cfg(e) /\ DFile(e.f)
    [] e.op = "doff"     -> Cfg(e) /\ DOff(e.off)
    [] e.op = "lname"    -> IF e.l \in Levels THEN Cfg(e) /\ e.name = Names[e.l + 1] /\ Same ELSE e.out = "exit" /\ Die
    \* what a release build leaves out does nothing at all
    [] e.op = "mac" /\ e.rel /\ e.l = 2 -> Cfg(e) /\ Same
    [] e.op = "dbg" /\ e.rel /\ e.k \in {"a", "c", "p"} -> Cfg(e) /\ Same
    [] e.op \in {"log", "mac"} ->
         IF e.l \notin Levels THEN e.out = "exit" /\ Die
         ELSE /\ e.kept /\ Message(e.l, e.cond) /\ Ends(e, dead')
              /\ IF e.cond THEN Quiet(e, {})
                 ELSE IF Missed(e.f, e.l) THEN GetsNoted(e, "err", DebugSink, LAMBDA st : LogLine(e, st))
                 ELSE Gets(e, LogSink(e.f, e.l), LAMBDA st : LogLine(e, st))
    [] e.op = "dbg" -> /\ e.kept /\ Check(e.quit, e.cond) /\ Ends(e, dead')
                       /\ IF e.cond THEN Quiet(e, {}) ELSE Gets(e, DebugSink, LAMBDA st : DbgLine(e, st))
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
