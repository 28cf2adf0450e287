-------------------------------- MODULE Span --------------------------------
(* Spans over one base array, and the index maps.                            *)
EXTENDS Integers, Sequences
CONSTANT Slots
VARIABLES arr, sp, dead      \* arr: the elements; sp[s]: [on, off, len]
vars == <<arr, sp, dead>>
None == [on |-> FALSE, off |-> 0, len |-> 0]
SpanInit(a) == arr = a /\ sp = [s \in Slots |-> None] /\ dead = FALSE
Refuse == dead' = TRUE /\ UNCHANGED <<arr, sp>>

RangePre(from, to) == from < to
Make(s, from, to) == sp' = [sp EXCEPT ![s] = [on |-> TRUE, off |-> from, len |-> to - from]] /\ UNCHANGED <<arr, dead>>
IdxPre(s, i) == i < sp[s].len
At(s, i) == arr[sp[s].off + i + 1]
Get(s, i) == UNCHANGED vars
Set(s, i, v) == arr' = [arr EXCEPT ![sp[s].off + i + 1] = v] /\ UNCHANGED <<sp, dead>>
Poke(i, v) == arr' = [arr EXCEPT ![i + 1] = v] /\ UNCHANGED <<sp, dead>>
View(s) == SubSeq(arr, sp[s].off + 1, sp[s].off + sp[s].len)

(* index maps, row-major, depth slowest *)
I2(r, c, nc) == r * nc + c
Row2(i, nc) == i \div nc
Col2(i, nc) == i % nc
I3(r, c, d, nr, nc) == d * nr * nc + r * nc + c
Dep3(i, nr, nc) == i \div (nr * nc)
Row3(i, nr, nc) == (i % (nr * nc)) \div nc
Col3(i, nr, nc) == i % nc

Bounded == \A s \in Slots : sp[s].on => sp[s].off + sp[s].len <= Len(arr) /\ sp[s].len > 0
=============================================================================
