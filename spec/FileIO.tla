------------------------------- MODULE FileIO -------------------------------
(* Files as a user of the file API sees them: a file is there or not, and     *)
(* holds a byte sequence. Byte sequences are run-length encoded (sequences    *)
(* of <<byte, count>>, neighbouring runs different), so that contents of any  *)
(* size stay small in the specification.                                      *)
EXTENDS Runs
VARIABLES disk,   \* file name -> [there, data]; only the ordinary files
          dead    \* the process ended in a refused call
vars == <<disk, dead>>

NL == << <<10, 1>> >>

Gone == [there |-> FALSE, data |-> <<>>]
With(d) == [there |-> TRUE, data |-> d]
(* what one writing call puts behind the kept content *)
Line(d, ln) == IF ln THEN Cat(d, NL) ELSE d
Kept(f, app) == IF app /\ disk[f].there THEN disk[f].data ELSE <<>>
Written(f, d, app, ln) == Cat(Kept(f, app), Line(d, ln))

Write(f, d, app, ln) == ~dead /\ disk' = [disk EXCEPT ![f] = With(Written(f, d, app, ln))] /\ UNCHANGED dead
(* the device accepted only a part: success is not reported, what is there is a beginning of what was to be there *)
WriteCut(f, d, app, ln, got) == ~dead /\ IsPrefix(Kept(f, app), got) /\ IsPrefix(got, Written(f, d, app, ln))
                                /\ got # Written(f, d, app, ln) /\ disk' = [disk EXCEPT ![f] = With(got)] /\ UNCHANGED dead
Drop(f) == ~dead /\ disk' = [disk EXCEPT ![f] = Gone] /\ UNCHANGED dead
Same == ~dead /\ UNCHANGED vars
Refuse == ~dead /\ dead' = TRUE /\ UNCHANGED disk

(* results of reading *)
Readable(f) == f \in DOMAIN disk /\ disk[f].there
Content(f) == disk[f].data
(* n bytes of memory filled with byte b, after reading f into them *)
Buffer(f, n, b) == LET t == Take(Content(f), n) IN Cat(t, Run(b, n - Size(t)))
TypeOK == \A f \in DOMAIN disk : Canon(disk[f].data) /\ (~disk[f].there => disk[f].data = <<>>)
=============================================================================
