------------------------------- MODULE Arith -------------------------------
(* Memory helpers over a byte array, and pure integer helpers.               *)
EXTENDS Big
VARIABLES mem, dead
vars == <<mem, dead>>
Refuse == dead' = TRUE /\ UNCHANGED mem
ByteAt(p) == mem[p + 1]
Chunk(p, n) == SubSeq(mem, p + 1, p + n)
Fits(p, n) == p + n <= Len(mem)
Put(p, s) == mem' = [i \in 1..Len(mem) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE mem[i]] /\ UNCHANGED dead
(* copy and move: the destination becomes what the source was before the call *)
Move(d, s, n) == Put(d, Chunk(s, n))
Fill(p, v, n) == Put(p, [i \in 1..n |-> v])
Equal(p, q, n) == n > 0 /\ Chunk(p, n) = Chunk(q, n)
Disjoint(p, q, n) == p + n <= q \/ q + n <= p
Swap(p, q, n) == /\ mem' = [i \in 1..Len(mem) |-> IF i > p /\ i <= p + n THEN mem[i - p + q]
                                                  ELSE IF i > q /\ i <= q + n THEN mem[i - q + p] ELSE mem[i]]
                 /\ UNCHANGED dead

(* the same over a large memory, run-length encoded *)
RL == INSTANCE Runs
LMove(d, s, n) == mem' = RL!Over(mem, d, RL!Slice(mem, s, n)) /\ UNCHANGED dead
LFill(p, v, n) == mem' = RL!Over(mem, p, RL!Run(v, n)) /\ UNCHANGED dead
LEqual(p, q, n) == n > 0 /\ RL!Slice(mem, p, n) = RL!Slice(mem, q, n)
LSwap(p, q, n) == mem' = RL!Over(RL!Over(mem, p, RL!Slice(mem, q, n)), q, RL!Slice(mem, p, n)) /\ UNCHANGED dead

(* order-based helpers, on numbers of any size *)
MinB(x, y) == IF Lss(x, y) THEN x ELSE y
MaxB(x, y) == IF Lss(x, y) THEN y ELSE x
ClampB(x, lo, hi) == MaxB(lo, MinB(x, hi))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsPal(x) == Digits(x.m) = Rev(Digits(x.m))
GcdB(x, y) == Num(FALSE, MGcd(x.m, y.m))
LcmB(x, y) == IF x.m = <<>> \/ y.m = <<>> THEN Zero ELSE Abs(Times(Quot(x, GcdB(x, y)), y))
=============================================================================
