------------------------------- MODULE SpanMC -------------------------------
EXTENDS Span, TLC, Json
CONSTANTS Vals, N, Ext
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
MCInit == SpanInit([i \in 1..N |-> "a"]) /\ hist = <<>>
MCNext == ~dead /\
  \/ \E s \in Slots, f \in 0..N, t \in 0..N : ~sp[s].on /\ H(<<"make", s, f, t>>) /\ IF RangePre(f, t) THEN Make(s, f, t) ELSE Refuse
  \/ \E s \in Slots, i \in 0..N : sp[s].on /\ H(<<"get", s, i>>) /\ IF IdxPre(s, i) THEN Get(s, i) ELSE Refuse
  \/ \E s \in Slots, i \in 0..N, v \in Vals : sp[s].on /\ H(<<"set", s, i, v>>) /\ IF IdxPre(s, i) THEN Set(s, i, v) ELSE Refuse
  \/ \E i \in 0..N - 1, v \in Vals : H(<<"poke", i, v>>) /\ Poke(i, v)
Emit == PrintT((IF dead' THEN "REF " ELSE "BEH ") \o ToJson(hist'))
(* a write through a span shows up in the array at one place only *)
OneCell == [][Len(arr') = Len(arr) /\ (\A i, j \in 1..N : arr'[i] # arr[i] /\ arr'[j] # arr[j] => i = j)]_vars
(* index maps: inverse of each other, in range, injective *)
Coords2 == {<<r, c, nr, nc>> \in (0..Ext) \X (0..Ext) \X (1..Ext) \X (1..Ext) : r < nr /\ c < nc}
Bij2 == \A x \in Coords2 : LET i == I2(x[1], x[2], x[4]) IN i \in 0..(x[3] * x[4] - 1) /\ Row2(i, x[4]) = x[1] /\ Col2(i, x[4]) = x[2]
Bij3 == \A x \in Coords2 : \A d \in 0..Ext : LET i == I3(x[1], x[2], d, x[3], x[4]) IN
            /\ i \in 0..((d + 1) * x[3] * x[4] - 1)
            /\ Row3(i, x[3], x[4]) = x[1] /\ Col3(i, x[3], x[4]) = x[2] /\ Dep3(i, x[3], x[4]) = d
ASSUME Bij2 /\ Bij3
=============================================================================
