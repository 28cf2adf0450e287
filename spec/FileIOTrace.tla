---------------------------- MODULE FileIOTrace -----------------------------
(* Recorded file calls: every event carries the bytes of all files, read from *)
(* disk by the harness itself.                                                *)
EXTENDS FileIO, TLC, Json, IOUtils
CONSTANT Files
VARIABLES sid, l
tvars == <<vars, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == disk = [f \in Files |-> Gone] /\ dead = FALSE /\ sid \in 1..Len(Traces) /\ l = 1
OK(e) == e.out = "ok"
Clean(e) == e.leak = 0 /\ ~e.fds
OnDisk(e) == [f \in Files |-> e.files[f]]
Target(e) == e.f \in Files
Wr(e) ==
  /\ OK(e) /\ Clean(e)
  /\ CASE ~Target(e) -> ~e.ret /\ Same                                           \* cannot be opened
       [] Target(e) /\ e.lim >= 0 /\ Line(e.d, e.ln) # <<>> /\ e.lim < Size(Written(e.f, e.d, e.app, e.ln))       \* disk limit in force
            -> ~e.ret /\ WriteCut(e.f, e.d, e.app, e.ln, e.files[e.f].data)
       [] OTHER -> e.ret /\ Write(e.f, e.d, e.app, e.ln)
  /\ disk' = OnDisk(e)
Ev(e) ==
  CASE e.op = "write" -> Wr(e)
    (* a device without room accepts only nothing at all *)
    [] e.op = "full"  -> OK(e) /\ Clean(e) /\ e.ret = (Line(e.d, e.ln) = <<>>) /\ Same /\ disk = OnDisk(e)
    [] e.op = "put"   -> OK(e) /\ Write(e.f, e.d, FALSE, FALSE) /\ disk' = OnDisk(e)
    [] e.op = "drop"  -> OK(e) /\ Drop(e.f) /\ disk' = OnDisk(e)
    [] e.op = "read"  -> /\ OK(e) /\ Clean(e) /\ Same /\ disk = OnDisk(e)
                         /\ IF e.cut THEN e.null              \* the device delivered less than the file holds
                            ELSE IF Readable(e.f) THEN ~e.null /\ e.len = Size(Content(e.f)) /\ e.d = Content(e.f) /\ e.term
                            ELSE e.null
    [] e.op = "rbuf"  -> /\ OK(e) /\ Clean(e) /\ Same /\ disk = OnDisk(e)
                         /\ IF e.cut THEN e.null
                            ELSE IF Readable(e.f) THEN e.same /\ e.d = Buffer(e.f, e.n, 238)
                            ELSE e.null /\ e.d = Run(238, e.n)
    [] e.op = "bad"   -> e.out = "exit" /\ e.msg /\ Refuse
    [] OTHER -> FALSE
Step(e) == IF "inj" \in DOMAIN e THEN e.out = "exit" /\ e.msg /\ Refuse ELSE Ev(e)
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Step(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
