------------------------------- MODULE BigMC -------------------------------
(* Big agrees with TLC's own integers wherever both apply, and obeys the     *)
(* ring and division laws beyond.                                            *)
EXTENDS Big
VARIABLE st
S == {0, 1, 2, 7, 9, 10, 99, 100, 9999, 10000, 10001, 19999, 20000, 32767, 40000, 46340}
I == S \cup {-x : x \in S}
Bigs == {Of(x) : x \in I} \cup {Times(Of(x), Pow2(62)) : x \in {1, -1, 3}} \cup {Plus(Pow2(63), Of(x)) : x \in {-1, 0, 1, -9999}} \cup {MinS(64), MaxU(64)}
Init == st \in {<<x, y>> : x \in Bigs, y \in Bigs}
Next == UNCHANGED st
X == st[1]
Y == st[2]
TQ(a, b) == IF (a < 0) # (b < 0) THEN -((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)) ELSE (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
Native == \A a \in I : Of(a) = X => \A b \in I : Of(b) = Y =>
    /\ Plus(X, Y) = Of(a + b) /\ Minus(X, Y) = Of(a - b) /\ Times(X, Y) = Of(a * b)
    /\ Cmp(X, Y) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
    /\ b # 0 => Quot(X, Y) = Of(TQ(a, b)) /\ Rem(X, Y) = Of(a - b * TQ(a, b))
ASSUME \A k \in 0..80 : Pow2(k + 1) = Times(Of(2), Pow2(k))
Laws == /\ Plus(X, Y) = Plus(Y, X) /\ Times(X, Y) = Times(Y, X) /\ Minus(Plus(X, Y), Y) = X
        /\ Y # Zero => /\ Plus(Times(Quot(X, Y), Y), Rem(X, Y)) = X /\ MCmp(Rem(X, Y).m, Y.m) < 0
                       /\ LET g == MGcd(X.m, Y.m) IN g # <<>> /\ MDivMod(X.m, g).r = <<>> /\ MDivMod(Y.m, g).r = <<>>
        /\ MOfDigits(Digits(X.m)) = X.m
=============================================================================
