-------------------------------- MODULE Sock --------------------------------
(* Stream and datagram sockets on the loopback interface. A slot holds one    *)
(* socket; a stream connection is a link with two ends (0 client, 1 server).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Slots
VARIABLES sk,      \* slot -> socket
          inbox,   \* end -> bytes sent to it and not yet received
          pend,    \* listener slot -> links not yet accepted
          gone,    \* ends that are closed
          lost,    \* ends whose connection was reset: what is still coming is not certain
          dq,      \* slot -> datagrams waiting there, with the sender's port
          dead
svars == <<sk, inbox, pend, gone, lost, dq, dead>>
Free == [k |-> "none", port |-> 0, link |-> 0, side |-> 0, err |-> FALSE]
SockInit == /\ sk = [s \in Slots |-> Free] /\ inbox = <<>> /\ pend = [s \in Slots |-> <<>>] /\ gone = {} /\ lost = {}
            /\ dq = [s \in Slots |-> <<>>] /\ dead = FALSE
Nl == Len(inbox)                                  \* links so far; inbox[l] = <<for the client, for the server>>
E(s) == <<sk[s].link, sk[s].side>>
Other(e) == <<e[1], 1 - e[2]>>
In(e) == inbox[e[1]][e[2] + 1]
SetIn(b, e, d) == [b EXCEPT ![e[1]][e[2] + 1] = d]
Kind(s) == sk[s].k
Holder(k, port) == {s \in Slots : sk[s].k = k /\ sk[s].port = port}
Same == UNCHANGED svars
Take(d, n) == SubSeq(d, 1, n)
Rest(d, n) == SubSeq(d, n + 1, Len(d))
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------- starting -------------------------------- *)
CanServe(t, port) == t = "U" \/ Holder("ls", port) = {}
Serve(s, t, port) == /\ Kind(s) = "none"
  /\ sk' = [sk EXCEPT ![s] = [Free EXCEPT !.k = IF t = "T" THEN "ls" ELSE "us", !.port = port]]
  /\ UNCHANGED <<inbox, pend, gone, lost, dq, dead>>
CanConnect(t, port) == t = "U" \/ Holder("ls", port) # {}
ConnectT(s, port, lport) == Kind(s) = "none" /\ \E h \in Holder("ls", port) :
  /\ sk' = [sk EXCEPT ![s] = [Free EXCEPT !.k = "st", !.port = lport, !.link = Nl + 1, !.side = 0]]
  /\ inbox' = Append(inbox, << <<>>, <<>> >>) /\ pend' = [pend EXCEPT ![h] = Append(@, Nl + 1)]
  /\ UNCHANGED <<gone, lost, dq, dead>>
ConnectU(s, port, lport) == /\ Kind(s) = "none"
  /\ sk' = [sk EXCEPT ![s] = [Free EXCEPT !.k = "uc", !.port = lport, !.link = port]]   \* link: the port it talks to
  /\ UNCHANGED <<inbox, pend, gone, lost, dq, dead>>
Accept(s, h) == /\ Kind(s) = "none" /\ Kind(h) = "ls" /\ pend[h] # <<>>
  /\ sk' = [sk EXCEPT ![s] = [Free EXCEPT !.k = "st", !.port = sk[h].port, !.link = pend[h][1], !.side = 1]]
  /\ pend' = [pend EXCEPT ![h] = Tail(@)] /\ UNCHANGED <<inbox, gone, lost, dq, dead>>

(* -------------------------------- closing -------------------------------- *)
(* closing with unread data, or a listener with connections nobody accepted, resets the other side *)
Close(s) ==
  /\ Kind(s) # "none" /\ sk' = [sk EXCEPT ![s] = Free]
  /\ CASE Kind(s) = "st" -> /\ gone' = gone \cup {E(s)} /\ lost' = IF In(E(s)) # <<>> THEN lost \cup {Other(E(s))} ELSE lost
                            /\ UNCHANGED <<pend, dq>>
       [] Kind(s) = "ls" -> /\ LET ls == {pend[s][i] : i \in 1..Len(pend[s])} IN
                                 gone' = gone \cup {<<l, 1>> : l \in ls} /\ lost' = lost \cup {<<l, 0>> : l \in ls}
                            /\ pend' = [pend EXCEPT ![s] = <<>>] /\ UNCHANGED dq
       [] OTHER -> dq' = [dq EXCEPT ![s] = <<>>] /\ UNCHANGED <<pend, gone, lost>>
  /\ UNCHANGED <<inbox, dead>>

(* ------------------------------- streams --------------------------------- *)
Broken(s) == Other(E(s)) \in gone \/ E(s) \in lost
(* r bytes of d were sent *)
SendT(s, d, r) == Kind(s) = "st" /\
  IF Broken(s) THEN (IF r >= 0 THEN lost' = lost \cup {E(s)} ELSE UNCHANGED lost) /\ UNCHANGED <<sk, inbox, pend, gone, dq, dead>>
  ELSE inbox' = SetIn(inbox, Other(E(s)), In(Other(E(s))) \o Take(d, r)) /\ UNCHANGED <<sk, pend, gone, lost, dq, dead>>
Readable(s) == Kind(s) = "st" /\ (In(E(s)) # <<>> \/ Broken(s))
(* r bytes were received; 0 at the end of the stream *)
RecvT(s, n, r, d) == Kind(s) = "st" /\ LET b == In(E(s)) IN
  /\ IF b # <<>> THEN (r \in 1..Min2(n, Len(b)) \/ (E(s) \in lost /\ r = 0)) ELSE Broken(s) /\ r = 0
  /\ d = Take(b, r) /\ inbox' = SetIn(inbox, E(s), Rest(b, r)) /\ UNCHANGED <<sk, pend, gone, lost, dq, dead>>

(* ------------------------------ datagrams -------------------------------- *)
(* a datagram goes to the socket bound to the port; a connected client takes only its server's *)
Dest(port, from) == Holder("us", port) \cup {s \in Holder("uc", port) : sk[s].link = from}
SendU(s, port, d) == Kind(s) \in {"us", "uc"} /\
  LET t == Dest(port, sk[s].port) IN
  IF t = {} THEN sk' = [sk EXCEPT ![s].err = TRUE] /\ UNCHANGED <<inbox, pend, gone, lost, dq, dead>>   \* a refusal may be on its way back
  ELSE dq' = [x \in Slots |-> IF x \in t THEN Append(dq[x], [from |-> sk[s].port, d |-> d]) ELSE dq[x]] /\ UNCHANGED <<sk, inbox, pend, gone, lost, dead>>
RecvU(s, n, r, d, from) == Kind(s) \in {"us", "uc"} /\ dq[s] # <<>> /\ LET g == dq[s][1] IN
  /\ r = Min2(n, Len(g.d)) /\ d = Take(g.d, r) /\ (from = 0 \/ from = g.from)
  /\ dq' = [dq EXCEPT ![s] = Tail(@)] /\ UNCHANGED <<sk, inbox, pend, gone, lost, dead>>
(* something to report without waiting *)
Ready(s) == CASE Kind(s) = "ls" -> pend[s] # <<>> [] Kind(s) = "st" -> Readable(s) [] Kind(s) \in {"us", "uc"} -> dq[s] # <<>> [] OTHER -> FALSE
Unsure(s) == (Kind(s) \in {"us", "uc"} /\ sk[s].err) \/ (Kind(s) = "st" /\ E(s) \in lost)
=============================================================================
