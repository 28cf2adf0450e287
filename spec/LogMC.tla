------------------------------- MODULE LogMC --------------------------------
(* Exploration of every history of redirections and messages: where each     *)
(* message ends up.                                                           *)
EXTENDS Log, TLC, Json, FiniteSets
CONSTANTS MaxMsgs, MaxSteps
VARIABLES sink,    \* place -> messages there, in order
          sent,    \* number of messages sent so far
          mute,    \* messages that had to go nowhere
          hist
vars == <<route, dfile, don, nofd, dead, sink, sent, mute>>
MCView == vars
Names == {"a", "bb", "no/x", "full", NoFile}
Ls == {0, 3, 4}
Places == {"a", "bb", "full", "err"}
H(op) == hist' = Append(hist, op)
MCInit == LogInit /\ sink = [p \in Places |-> <<>>] /\ sent = 0 /\ mute = {} /\ hist = <<>>
Put(p) == /\ sent' = sent + 1
          /\ IF p = "none" THEN mute' = mute \cup {sent + 1} /\ UNCHANGED sink
             ELSE sink' = [sink EXCEPT ![p] = Append(@, sent + 1)] /\ UNCHANGED mute
MCNext == ~dead /\ Len(hist) < MaxSteps /\
  \/ /\ UNCHANGED <<sink, sent, mute>>
     /\ \/ \E l \in Ls, f \in Names : H(<<"route", l, f>>) /\ Route(l, f)
        \/ \E f \in Names : H(<<"routeall", f>>) /\ RouteAll(f)
        \/ \E f \in Names : H(<<"dfile", f>>) /\ DFile(f)
        \/ \E b \in BOOLEAN : H(<<"doff", b>>) /\ DOff(b)
        \/ \E b \in BOOLEAN : b # nofd /\ H(<<"nofd", b>>) /\ NoFd(b)
  \/ /\ sent < MaxMsgs
     /\ \/ \E l \in Ls, f \in {NoFile, "a", "no/x"}, c \in BOOLEAN : H(<<"log", f, l, c>>) /\ Message(l, c) /\ Put(IF c THEN "none" ELSE LogSink(f, l))
        \/ \E q, c \in BOOLEAN : H(<<"dbg", q, c>>) /\ Check(q, c) /\ Put(IF c THEN "none" ELSE DebugSink)
Emit == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))
(* every message is in exactly one place, once; or had to go nowhere *)
Once == \A i \in 1..sent : Cardinality({<<p, k>> \in Places \X (1..sent) : k <= Len(sink[p]) /\ sink[p][k] = i}) = (IF i \in mute THEN 0 ELSE 1)
Ordered == \A p \in Places : \A i, j \in 1..Len(sink[p]) : i < j => sink[p][i] < sink[p][j]
(* places only grow, and configuration writes nothing *)
Grow == [][\A p \in Places : Len(sink'[p]) >= Len(sink[p]) /\ (\A i \in 1..Len(sink[p]) : sink'[p][i] = sink[p][i])]_vars
(* nothing lands in a file that could not be opened *)
NoFiles == [][nofd => \A p \in {"a", "bb", "full"} : sink'[p] = sink[p]]_vars
=============================================================================
