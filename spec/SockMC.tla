------------------------------- MODULE SockMC -------------------------------
EXTENDS Sock, TLC, Json
CONSTANTS MaxLinks, MaxBytes, MaxSteps, Proto
VARIABLES sentb, recvb,   \* end -> all bytes sent to / received at it
          hist
vars == <<sk, inbox, pend, gone, lost, dq, dead, sentb, recvb>>
MCView == vars
H(op) == hist' = Append(hist, op)
NC == 1
MCInit == SockInit /\ sentb = <<>> /\ recvb = <<>> /\ hist = <<>>
P == 1                          \* the one well-known port
Eph(s) == 10 + s                \* local port of the client in slot s
U == UNCHANGED <<sentb, recvb>>
Datas == {<<1>>, <<2, 3>>}
Idle == {s \in Slots : Kind(s) = "none"}
First == Idle # {} /\ \E s \in Idle : \A t \in Idle : s <= t
Lo == CHOOSE s \in Idle : \A t \in Idle : s <= t
Start == Idle # {} /\ LET s == Lo IN
  \/ CanServe(Proto, P) /\ Holder("us", P) = {} /\ H(<<"srv", s, Proto, P>>) /\ Serve(s, Proto, P) /\ U
  \/ ~CanServe(Proto, P) /\ H(<<"srv", s, Proto, P>>) /\ Same /\ U
  \/ Proto = "T" /\ CanConnect("T", P) /\ Nl < MaxLinks /\ H(<<"cli", s, "T", P>>) /\ ConnectT(s, P, Eph(s)) /\ sentb' = Append(sentb, << <<>>, <<>> >>) /\ recvb' = Append(recvb, << <<>>, <<>> >>)
  \/ ~CanConnect(Proto, P) /\ H(<<"cli", s, "T", P>>) /\ Same /\ U
  \/ Proto = "U" /\ H(<<"cli", s, "U", P>>) /\ ConnectU(s, P, Eph(s)) /\ U
  \/ \E h \in Slots : H(<<"acc", s, h>>) /\ Accept(s, h) /\ U
Note(f, e, d) == [f EXCEPT ![e[1]][e[2] + 1] = @ \o d]
Move ==
  \/ \E s \in Slots, d \in Datas : /\ Kind(s) = "st" /\ H(<<"send", s, d>>) /\ SendT(s, d, Len(d))
                                   /\ sentb' = (IF Broken(s) THEN sentb ELSE Note(sentb, Other(E(s)), d)) /\ UNCHANGED recvb
  \/ \E s \in Slots, n \in {1, 3} : /\ Kind(s) = "st" /\ Readable(s) /\ LET r == Min2(n, Len(In(E(s)))) IN
                                      H(<<"recv", s, n>>) /\ RecvT(s, n, r, Take(In(E(s)), r)) /\ recvb' = Note(recvb, E(s), Take(In(E(s)), r)) /\ UNCHANGED sentb
  \/ \E s \in Slots : Kind(s) \in {"st", "us", "uc"} /\ ~Ready(s) /\ H(<<"idle", s>>) /\ Same /\ U
  \/ \E s \in Slots, d \in Datas : Kind(s) = "uc" /\ H(<<"send", s, d>>) /\ SendU(s, sk[s].link, d) /\ U
  \/ \E s, t \in Slots, d \in Datas : Kind(s) \in {"us", "uc"} /\ Kind(t) \in {"us", "uc"} /\ s # t /\ (Kind(s) = "uc" => sk[s].link = sk[t].port) /\ H(<<"sendto", s, t, d>>) /\ SendU(s, sk[t].port, d) /\ U
  \/ \E s \in Slots, n \in {1, 3} : Kind(s) \in {"us", "uc"} /\ dq[s] # <<>> /\ LET g == dq[s][1] r == Min2(n, Len(g.d)) IN H(<<"recv", s, n>>) /\ RecvU(s, n, r, Take(g.d, r), g.from) /\ U
  \/ \E s \in Slots : Kind(s) # "none" /\ H(<<"close", s>>) /\ Close(s) /\ U
  \/ H(<<"poll">>) /\ Same /\ U
MCNext == Len(hist) < MaxSteps /\ (Start \/ Move)
Emit == PrintT("BEH " \o ToJson(hist'))
Bound == \A l \in 1..Nl : Len(sentb[l][1]) <= MaxBytes /\ Len(sentb[l][2]) <= MaxBytes
BoundU == \A s \in Slots : Len(dq[s]) <= 2
(* nothing lost, invented or reordered: what was received and what is waiting is what was sent *)
Conserved == \A l \in 1..Nl : \A i \in 1..2 : recvb[l][i] \o inbox[l][i] = sentb[l][i]
(* every end is in one place: a slot, the queue of a listener, or closed *)
Where(l, i) == Cardinality({s \in Slots : Kind(s) = "st" /\ E(s) = <<l, i>>}) + Cardinality({s \in Slots : i = 1 /\ \E k \in 1..Len(pend[s]) : pend[s][k] = l}) + (IF <<l, i>> \in gone THEN 1 ELSE 0)
OnePlace == \A l \in 1..Nl : \A i \in 0..1 : Where(l, i) = 1
(* a reset connection has lost its other side *)
LostGone == \A e \in lost : Other(e) \in gone
Exclusive == Cardinality(Holder("ls", P)) <= 1
=============================================================================
