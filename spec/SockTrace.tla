------------------------------ MODULE SockTrace -----------------------------
EXTENDS Sock, TLC, Json, IOUtils
VARIABLES sid, l
tvars == <<sk, inbox, pend, gone, lost, dq, dead, sid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
TraceAlias == [sid |-> sid, l |-> l]   \* what a rejection prints
TraceInit == SockInit /\ sid \in 1..Len(Traces) /\ l = 1
OK(e, n) == e.out = "ok" /\ e.nfd = n
Startup == [socket |-> -1, setsockopt |-> -1, bind |-> -2, listen |-> -3, connect |-> -4, accept |-> -1]
(* nothing came: the whole time given was waited, and (busy machine allowed) no more *)
Waited(e) == e.took >= e.ms - 1 /\ e.took <= e.ms + 2500
Failed(e, st) == OK(e, 0) /\ e.ret = st /\ Same
Made(e, t, port) == OK(e, 1) /\ e.ret = 0 /\ e.type = t /\ e.lport = port
Fell(e, c) == e.hit /\ e.flt = c
Local == <<127, 0, 0, 1>>
Ev(e) ==
  CASE e.op = "srv" -> IF e.hit THEN Failed(e, Startup[e.flt])
                       ELSE IF ~CanServe(e.t, e.port) THEN Failed(e, -2)
                       ELSE Made(e, e.t, e.port) /\ e.acc = (e.t = "T") /\ Serve(e.slot, e.t, e.port)
    [] e.op = "cli" -> IF e.hit THEN Failed(e, Startup[e.flt])
                       ELSE IF ~CanConnect(e.t, e.port) THEN Failed(e, -4)
                       ELSE /\ OK(e, 1) /\ e.ret = 0 /\ e.type = e.t /\ ~e.acc
                            /\ IF e.t = "T" THEN ConnectT(e.slot, e.port, e.lport) ELSE ConnectU(e.slot, e.port, e.lport)
    [] e.op = "acc" -> IF e.hit \/ Kind(e.h) # "ls" THEN Failed(e, -1) ELSE Made(e, "T", sk[e.h].port) /\ ~e.acc /\ Accept(e.slot, e.h)
    [] e.op = "close" -> IF e.hit THEN OK(e, 0) /\ ~e.r /\ Same ELSE OK(e, -1) /\ e.r /\ Close(e.slot)
    [] e.op = "send" -> /\ OK(e, 0)
         /\ IF Fell(e, "send") THEN e.r = -5 /\ Same
            ELSE IF Kind(e.slot) = "st" THEN /\ e.r = -5 \/ e.r \in 0..Len(e.d)
                                             /\ e.r = -5 => Broken(e.slot)
                                             /\ (e.r >= 0 /\ e.r < Len(e.d)) => Fell(e, "short") /\ e.r > 0
                                             /\ SendT(e.slot, e.d, e.r)
            ELSE IF Kind(e.slot) = "ls" THEN e.r = -5 /\ Same
            ELSE IF Kind(e.slot) = "us" THEN e.r = -5 /\ Same
            ELSE IF e.r = -5 THEN sk[e.slot].err /\ Same
            ELSE /\ e.r = (IF Fell(e, "short") THEN e.r ELSE Len(e.d)) /\ e.r \in 0..Len(e.d)
                 /\ SendU(e.slot, sk[e.slot].link, Take(e.d, e.r))
    [] e.op = "sendto" -> /\ OK(e, 0)
         /\ IF Fell(e, "send") THEN e.r = -5 /\ Same
            ELSE IF e.r = -5 THEN sk[e.slot].err /\ Same
            ELSE /\ e.r = (IF Fell(e, "short") THEN e.r ELSE Len(e.d)) /\ e.r \in 0..Len(e.d)
                 /\ SendU(e.slot, e.port, Take(e.d, e.r))
    [] e.op \in {"recv", "rfrom", "trecv", "tfrom"} -> /\ OK(e, 0) /\ e.rest
         /\ IF Fell(e, "recv") THEN e.r = -6 /\ Same
            ELSE IF Fell(e, "poll") THEN e.r = -7 /\ Same
            ELSE IF e.r = -6 THEN (Unsure(e.slot) \/ Kind(e.slot) = "ls") /\ Same
            ELSE IF e.timed /\ ~Ready(e.slot) THEN e.r = 0 /\ Same /\ Waited(e)
            ELSE IF Kind(e.slot) = "st" THEN RecvT(e.slot, e.n, e.r, e.d)
            ELSE RecvU(e.slot, e.n, e.r, e.d, IF e.from THEN e.a.port ELSE 0) /\ (e.from => e.a.addr = Local)
    [] e.op = "poll" -> /\ OK(e, 0) /\ Same
         /\ IF Fell(e, "poll") THEN e.r = -7
            ELSE /\ \A i \in 1..Len(e.on) : Unsure(e.on[i]) \/ e.ready[i] = Ready(e.on[i])
                 /\ e.r = Cardinality({i \in 1..Len(e.on) : e.ready[i]})
                 /\ (e.r = 0 => Waited(e))
    [] e.op = "late" -> /\ OK(e, 0) /\ Same /\ ~Ready(e.slot)
                        /\ IF e.at + 500 > e.ms THEN TRUE ELSE IF e.k = "poll" THEN e.r = 1 ELSE e.r = 5 /\ e.d = <<108, 97, 116, 101, 33>>
    [] e.op = "pump" -> /\ OK(e, 0) /\ E(e.slot) = Other(E(e.to)) /\ In(E(e.to)) = <<>> /\ ~Broken(e.slot) /\ ~Broken(e.to)
                        /\ e.same /\ e.got = e.n /\ e.sent = e.n /\ Same
    [] e.op = "badfd" -> /\ OK(e, 0) /\ Same
                         /\ e.r = (CASE e.k = "close" -> 0 [] e.k \in {"send", "sendto"} -> -5 [] e.k \in {"recv", "rfrom", "trecv", "tfrom"} -> -6 [] e.k = "acc" -> -1 [] e.k = "poll" -> -7)
    [] e.op = "mkaddr" -> IF "r" \in DOMAIN e THEN OK(e, 0) /\ e.r = [port |-> e.port, addr |-> e.q] /\ Same ELSE e.out = "exit" /\ dead' = TRUE /\ UNCHANGED <<sk, inbox, pend, gone, lost, dq>>
    [] e.op = "init" -> OK(e, 0) /\ e.r /\ Same
    [] OTHER -> FALSE
TraceNext ==
  \/ l <= Len(Traces[sid]) /\ ~dead /\ Ev(Traces[sid][l]) /\ l' = l + 1 /\ UNCHANGED sid
  \/ l > Len(Traces[sid]) /\ UNCHANGED tvars
=============================================================================
