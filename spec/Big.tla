-------------------------------- MODULE Big --------------------------------
(* Integers of any size for the trace specifications (TLC's are 32 bits).    *)
(* A magnitude is a little-endian sequence of base-10000 digits without      *)
(* leading zeros; a number is [n |-> negative?, m |-> magnitude].            *)
EXTENDS Integers, Sequences
LOCAL B == 10000
D(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE Norm(_)
Norm(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Norm(SubSeq(m, 1, Len(m) - 1)) ELSE m
RECURSIVE MagOf(_)
MagOf(x) == IF x = 0 THEN <<>> ELSE <<x % B>> \o MagOf(x \div B)
LOCAL MaxL(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF D(a, i) < D(b, i) THEN -1 ELSE IF D(a, i) > D(b, i) THEN 1 ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == MCmpAt(a, b, MaxL(a, b))

RECURSIVE MAddAt(_, _, _, _)
MAddAt(a, b, i, c) == IF i > MaxL(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                      ELSE LET s == D(a, i) + D(b, i) + c IN <<s % B>> \o MAddAt(a, b, i + 1, s \div B)
MAdd(a, b) == MAddAt(a, b, 1, 0)
RECURSIVE MSubAt(_, _, _, _)
MSubAt(a, b, i, c) == IF i > Len(a) THEN <<>>
                      ELSE LET s == D(a, i) - D(b, i) - c IN <<(s + B) % B>> \o MSubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Norm(MSubAt(a, b, 1, 0))        \* a >= b
RECURSIVE MMulSAt(_, _, _, _)
MMulSAt(a, k, i, c) == IF i > Len(a) THEN MagOf(c) ELSE LET s == a[i] * k + c IN <<s % B>> \o MMulSAt(a, k, i + 1, s \div B)
MMulS(a, k) == Norm(MMulSAt(a, k, 1, 0))      \* 0 <= k <= B
RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> THEN <<>> ELSE LET r == MMul(a, Tail(b)) IN MAdd(MMulS(a, Head(b)), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
(* largest d in lo..hi with d * b <= r *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN
                        IF MCmp(MMulS(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, b, i, r, q) == IF i = 0 THEN [q |-> Norm(q), r |-> r]
                        ELSE LET r2 == Norm(<<a[i]>> \o r) d == QDigit(r2, b, 0, B - 1)
                             IN DivAt(a, b, i - 1, MSub(r2, MMulS(b, d)), <<d>> \o q)
MDivMod(a, b) == DivAt(a, b, Len(a), <<>>, <<>>)

(* ------------------------------- signed ---------------------------------- *)
Num(neg, m) == [n |-> neg /\ m # <<>>, m |-> m]
Zero == Num(FALSE, <<>>)
Of(x) == IF x < 0 THEN Num(TRUE, MagOf(-x)) ELSE Num(FALSE, MagOf(x))
Neg(x) == Num(~x.n, x.m)
Abs(x) == Num(FALSE, x.m)
Cmp(x, y) == IF x.n /\ ~y.n THEN -1 ELSE IF ~x.n /\ y.n THEN 1 ELSE IF x.n THEN MCmp(y.m, x.m) ELSE MCmp(x.m, y.m)
Leq(x, y) == Cmp(x, y) <= 0
Lss(x, y) == Cmp(x, y) < 0
Plus(x, y) == IF x.n = y.n THEN Num(x.n, MAdd(x.m, y.m))
              ELSE IF MCmp(x.m, y.m) >= 0 THEN Num(x.n, MSub(x.m, y.m)) ELSE Num(y.n, MSub(y.m, x.m))
Minus(x, y) == Plus(x, Neg(y))
Times(x, y) == Num(x.n # y.n, MMul(x.m, y.m))
(* truncating division, as in C *)
Quot(x, y) == Num(x.n # y.n, MDivMod(x.m, y.m).q)
Rem(x, y) == Num(x.n, MDivMod(x.m, y.m).r)
RECURSIVE MGcd(_, _)
MGcd(a, b) == IF b = <<>> THEN a ELSE MGcd(b, MDivMod(a, b).r)

(* decimal digits of a magnitude, most significant first *)
LOCAL Digs4(x) == <<x \div 1000, (x \div 100) % 10, (x \div 10) % 10, x % 10>>
RECURSIVE DigsAt(_, _)
DigsAt(m, i) == IF i = 0 THEN <<>> ELSE Digs4(m[i]) \o DigsAt(m, i - 1)
RECURSIVE DropZ(_)
DropZ(s) == IF Len(s) > 1 /\ s[1] = 0 THEN DropZ(Tail(s)) ELSE s
Digits(m) == IF m = <<>> THEN <<0>> ELSE DropZ(DigsAt(m, Len(m)))
RECURSIVE MOfDigitsR(_)
MOfDigitsR(ds) == \* little-endian digits -> magnitude
  IF ds = <<>> THEN <<>>
  ELSE LET g(i) == IF i <= Len(ds) THEN ds[i] ELSE 0 IN
       <<g(1) + 10 * g(2) + 100 * g(3) + 1000 * g(4)>> \o MOfDigitsR(SubSeq(ds, 5, Len(ds)))
MOfDigits(ds) == Norm(MOfDigitsR([i \in 1..Len(ds) |-> ds[Len(ds) + 1 - i]]))

(* powers of two: Pow2(k) *)
RECURSIVE MPow2(_)
MPow2(k) == IF k <= 13 THEN MagOf(2^k) ELSE LET h == MPow2(k \div 2) IN MMulS(MMul(h, h), IF k % 2 = 0 THEN 1 ELSE 2)
Pow2(k) == Num(FALSE, MPow2(k))
MaxU(bits) == Minus(Pow2(bits), Of(1))
MaxS(bits) == Minus(Pow2(bits - 1), Of(1))
MinS(bits) == Neg(Pow2(bits - 1))
=============================================================================
