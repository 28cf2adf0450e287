------------------------------ MODULE ArithMC ------------------------------
EXTENDS Arith, TLC, Json
CONSTANTS N, R
VARIABLE hist
MCView == vars
H(op) == hist' = Append(hist, op)
MCInit == mem \in [1..N -> {0, 1}] /\ dead = FALSE /\ hist = <<<<"mem", mem>>>>
P == 0..N
MCNext == ~dead /\ Len(hist) < 3 /\
  \E p \in P, q \in P, n \in P : Fits(p, n) /\ Fits(q, n) /\
     \/ H(<<"memmove", p, q, n>>) /\ Move(p, q, n)
     \/ Disjoint(p, q, n) /\ H(<<"memcopy", p, q, n>>) /\ Move(p, q, n)
     \/ q = 0 /\ \E v \in {0, 1} : H(<<"memset", p, v, n>>) /\ Fill(p, v, n)
     \/ H(<<"memcmp", p, q, n>>) /\ UNCHANGED vars
     \/ Disjoint(p, q, n) /\ n > 0 /\ H(<<"gswap", p, q, n>>) /\ Swap(p, q, n)
Emit == PrintT("BEH " \o ToJson(hist'))
Frame == [][Len(mem') = Len(mem)]_vars
SwapTwice == \A p \in P, q \in P, n \in P : Fits(p, n) /\ Fits(q, n) /\ Disjoint(p, q, n) =>
   LET sw(m) == [i \in 1..Len(m) |-> IF i > p /\ i <= p + n THEN m[i - p + q] ELSE IF i > q /\ i <= q + n THEN m[i - q + p] ELSE m[i]] IN sw(sw(mem)) = mem
(* integer laws, with TLC's integers as the oracle *)
Rng == -R..R
Dvd(d, x) == IF d = 0 THEN x = 0 ELSE x % d = 0
AbsI(x) == IF x < 0 THEN -x ELSE x
ASSUME \A x \in Rng, y \in Rng : \E g \in 0..R : /\ GcdB(Of(x), Of(y)) = Of(g) /\ Dvd(g, AbsI(x)) /\ Dvd(g, AbsI(y))
                                                /\ (\A d \in 1..R : (Dvd(d, AbsI(x)) /\ Dvd(d, AbsI(y))) => Dvd(d, g))
ASSUME \A x \in Rng, y \in Rng : LET l == LcmB(Of(x), Of(y)) IN Times(l, GcdB(Of(x), Of(y))) = Of(AbsI(x * y))
ASSUME \A x \in Rng, y \in Rng : MinB(Of(x), Of(y)) = Of(IF x < y THEN x ELSE y) /\ MaxB(Of(x), Of(y)) = Of(IF x > y THEN x ELSE y)
ASSUME \A x \in Rng, y \in Rng, z \in Rng : y <= z => LET c == ClampB(Of(x), Of(y), Of(z)) IN Leq(Of(y), c) /\ Leq(c, Of(z)) /\ ((y <= x /\ x <= z) => c = Of(x))
ASSUME {x \in 0..200 : IsPal(Of(x))} = {x \in 0..200 : x < 10 \/ (x < 100 /\ x % 11 = 0) \/ (x >= 100 /\ x % 10 = x \div 100)}
=============================================================================
