-------------------------------- MODULE Log ---------------------------------
(* Log levels with their output files, per-call files, debug output with its  *)
(* own file and switch. A name is a file, "-" (none), or cannot be opened;    *)
(* "full" accepts nothing.                                                    *)
EXTENDS Integers, Sequences
VARIABLES route,   \* level -> name
          dfile,   \* name for debug output
          don,     \* debug output on
          nofd,    \* no file can be opened (descriptors used up)
          dead
lvars == <<route, dfile, don, nofd, dead>>
Levels == 0..5
Fatal == {4, 5}
Unopenable == {"no/x", "dir"}
NoFile == "-"
LogInit == route = [l \in Levels |-> NoFile] /\ dfile = NoFile /\ don = TRUE /\ nofd = FALSE /\ dead = FALSE
(* where something addressed to name f ends up *)
Opens(f) == f # NoFile /\ ~nofd /\ f \notin Unopenable
Lands(f) == IF Opens(f) THEN f ELSE "err"
Target(call, l) == IF call # NoFile THEN call ELSE route[l]
LogSink(call, l) == Lands(Target(call, l))
(* the message could not go where it was addressed: a debug note may say so *)
Missed(call, l) == Target(call, l) # NoFile /\ ~Opens(Target(call, l))
DebugSink == IF don THEN Lands(dfile) ELSE "none"
(* ------------------------------ transitions ------------------------------ *)
Same == UNCHANGED lvars
Die == dead' = TRUE /\ UNCHANGED <<route, dfile, don, nofd>>
Route(l, f) == route' = [route EXCEPT ![l] = f] /\ UNCHANGED <<dfile, don, nofd, dead>>
RouteAll(f) == route' = [l \in Levels |-> f] /\ UNCHANGED <<dfile, don, nofd, dead>>
DFile(f) == dfile' = f /\ UNCHANGED <<route, don, nofd, dead>>
DOff(b) == don' = ~b /\ UNCHANGED <<route, dfile, nofd, dead>>
NoFd(b) == nofd' = b /\ UNCHANGED <<route, dfile, don, dead>>
Message(l, cond) == IF ~cond /\ l \in Fatal THEN Die ELSE Same
Check(quit, cond) == IF ~cond /\ quit THEN Die ELSE Same
=============================================================================
