-------------------------------- MODULE Conv --------------------------------
(* Numbers and their decimal texts. Texts are sequences of character codes,   *)
(* numbers are Big integers; a binary floating point value is m / 2^e.        *)
EXTENDS Big
VARIABLE dead
Chr0 == 48
IsDigit(c) == c >= 48 /\ c <= 57
Dot == 46
Minus1 == 45
Dots(t) == {i \in 1..Len(t) : t[i] = Dot}
(* what counts as a number: digits and points; one point at most gives it a value *)
IsNumeric(t) == \A i \in 1..Len(t) : IsDigit(t[i]) \/ t[i] = Dot
HasValue(t) == ~IsNumeric(t) \/ (\A i, j \in Dots(t) : i = j)
Point(t) == IF Dots(t) = {} THEN Len(t) + 1 ELSE CHOOSE i \in Dots(t) : TRUE
Codes(ds) == [i \in 1..Len(ds) |-> ds[i] + Chr0]
Vals(t) == [i \in 1..Len(t) |-> t[i] - Chr0]
(* the whole part of a numeric text, 0 for any other text *)
IntOf(t) == IF ~IsNumeric(t) THEN Zero ELSE Num(FALSE, MOfDigits(Vals(SubSeq(t, 1, Point(t) - 1))))
(* a numeric text denotes Scaled(t) / 10^Places(t) *)
Places(t) == IF Point(t) > Len(t) THEN 0 ELSE Len(t) - Point(t)
Scaled(t) == IF ~IsNumeric(t) THEN Zero ELSE Num(FALSE, MOfDigits(Vals(SubSeq(t, 1, Point(t) - 1)) \o Vals(SubSeq(t, Point(t) + 1, Len(t)))))
TextOf(x) == (IF x.n THEN <<Minus1>> ELSE <<>>) \o Codes(Digits(x.m))

(* integer types *)
Bits(ty) == CASE ty \in {"i8", "u8"} -> 8 [] ty \in {"i16", "u16"} -> 16 [] ty \in {"i32", "u32"} -> 32 [] ty \in {"i64", "u64"} -> 64
Signed(ty) == ty \in {"i8", "i16", "i32", "i64"}
IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
FloatTypes == {"f", "d", "r"}
Holds(ty, x) == IF Signed(ty) THEN Leq(MinS(Bits(ty)), x) /\ Leq(x, MaxS(Bits(ty))) ELSE ~x.n /\ Leq(x, MaxU(Bits(ty)))
(* r is a right answer for reading t as a number of type ty (a number that does not fit has no right answer) *)
ReadsInt(ty, t, r) == HasValue(t) => LET v == IntOf(t) IN Holds(ty, v) => r = v

RECURSIVE MPow10(_)
MPow10(k) == IF k = 0 THEN <<1>> ELSE MMulS(MPow10(k - 1), 10)
Pow10(k) == Num(FALSE, MPow10(k))
Up(e) == IF e > 0 THEN Pow2(e) ELSE Of(1)
Down(e) == IF e < 0 THEN Pow2(-e) ELSE Of(1)
Prec(ty) == CASE ty = "f" -> 24 [] ty = "d" -> 53 [] ty = "r" -> 64
(* m / 2^e, with m having all bits of the type, is a closest number of the type to s / 10^k *)
Closest(ty, m, e, s, k) ==
  IF s = Zero THEN m = Zero
  ELSE /\ Leq(Pow2(Prec(ty) - 1), Abs(m)) /\ Lss(Abs(m), Pow2(Prec(ty)))
       /\ Leq(Times(Of(2), Abs(Minus(Times(Times(m, Down(e)), Pow10(k)), Times(s, Up(e))))), Times(Down(e), Pow10(k)))
ReadsFloat(ty, t, m, e) == HasValue(t) => Closest(ty, m, e, Scaled(t), Places(t))
(* t writes m / 2^e with six decimals, correctly rounded *)
WritesFloat(t, m, e) ==
  LET neg == Len(t) > 0 /\ t[1] = Minus1
      u == IF neg THEN Tail(t) ELSE t IN
  /\ Len(u) >= 8 /\ u[Len(u) - 6] = Dot /\ (\A i \in 1..Len(u) : i # Len(u) - 6 => IsDigit(u[i])) /\ (Len(u) > 8 => u[1] # Chr0)
  /\ (m # Zero => neg = m.n)
  /\ Leq(Times(Of(2), Abs(Minus(Times(Scaled(u), Up(e)), Times(Times(Abs(m), Down(e)), Of(1000000))))), Up(e))
(* a text with its terminator needs this much room *)
Room(t) == Len(t) + 1
=============================================================================
