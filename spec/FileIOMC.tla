------------------------------ MODULE FileIOMC ------------------------------
EXTENDS FileIO, TLC, Json
CONSTANTS Files, MaxLen
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
Texts == {<<>>, << <<97, 1>> >>, << <<98, 2>> >>, << <<97, 1>>, <<10, 1>> >>, << <<37, 1>>, <<115, 1>> >>}
Bad == {"dir", "nodir/x", "dir/"}
MCInit == disk = [f \in Files |-> Gone] /\ dead = FALSE /\ hist = <<>>
MCNext ==
  \/ \E f \in Files, d \in Texts, app, ln \in BOOLEAN : H(<<"write", f, d, app, ln>>) /\ Write(f, d, app, ln)
  \/ \E f \in Files : H(<<"drop", f>>) /\ Drop(f)
  \/ \E f \in Files \cup Bad : H(<<"read", f>>) /\ Same
  \/ \E f \in Files, n \in 1..(MaxLen + 1) : H(<<"rbuf", f, n>>) /\ Same
  \/ \E f \in Bad, d \in Texts, app \in BOOLEAN : H(<<"write", f, d, app, FALSE>>) /\ Same
  \/ \E f \in Files, d \in Texts, app \in BOOLEAN, n \in 0..2 :
       /\ Size(Written(f, d, app, FALSE)) > n /\ Size(Kept(f, app)) <= n
       /\ H(<<"cut", f, d, app, n>>) /\ WriteCut(f, d, app, FALSE, Take(Written(f, d, app, FALSE), n))
Bound == \A f \in Files : Size(disk[f].data) <= MaxLen
Emit == Bound' /\ PrintT("BEH " \o ToJson(hist'))
(* laws of the content algebra and of the calls, in every reachable state *)
AppendLaw == \A f \in Files, d \in Texts, ln \in BOOLEAN :
    /\ Size(Written(f, d, TRUE, ln)) = Size(disk[f].data) + Size(d) + (IF ln THEN 1 ELSE 0)
    /\ IsPrefix(disk[f].data, Written(f, d, TRUE, ln))
    /\ Size(Written(f, d, FALSE, ln)) = Size(d) + (IF ln THEN 1 ELSE 0)
    /\ Canon(Written(f, d, TRUE, ln))
BufLaw == \A f \in Files, n \in 1..(MaxLen + 1) : Size(Buffer(f, n, 238)) = n /\ IsPrefix(Take(disk[f].data, n), Buffer(f, n, 238))
(* a call on one file leaves the others alone *)
Others == [][\E f \in Files : \A g \in Files \ {f} : disk'[g] = disk[g]]_disk
=============================================================================
