------------------------------- MODULE RunsMC -------------------------------
(* The run-length operators agree with the same operators on plain sequences, *)
(* for all pairs of short contents and all places.                            *)
EXTENDS Runs, FiniteSets
CONSTANTS MaxRun, MaxRuns, Bytes
VARIABLES x, y
Shapes == UNION {[1..k -> Bytes \X (1..MaxRun)] : k \in 0..MaxRuns}
All == {r \in Shapes : Canon(r)}
Init == x \in All /\ y \in All
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Laws ==
  /\ Canon(Cat(x, y)) /\ Plain(Cat(x, y)) = Plain(x) \o Plain(y)
  /\ Size(x) = Len(Plain(x))
  /\ (Plain(x) = Plain(y)) <=> (x = y)
  /\ IsPrefix(x, y) <=> (Size(x) <= Size(y) /\ SubSeq(Plain(y), 1, Size(x)) = Plain(x))
  /\ \A p \in 0..Size(x) : \A n \in 0..(Size(x) - p) : LET s == Slice(x, p, n) IN Canon(s) /\ Plain(s) = SubSeq(Plain(x), p + 1, p + n)
  /\ \A p \in 0..(Size(x) - Size(y)) : LET o == Over(x, p, y) IN
       Canon(o) /\ Size(o) = Size(x) /\ \A i \in 1..Size(x) : Plain(o)[i] = (IF i > p /\ i <= p + Size(y) THEN Plain(y)[i - p] ELSE Plain(x)[i])
=============================================================================
