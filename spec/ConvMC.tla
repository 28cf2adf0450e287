------------------------------- MODULE ConvMC -------------------------------
(* Laws of the number texts, and every text over a small alphabet as a test. *)
EXTENDS Conv, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE text
MCInit == text = <<>> /\ dead = FALSE
MCNext == \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED dead
Bound == Len(text) <= MaxLen
Emit == Bound' /\ PrintT("BEH " \o ToJson(<<<<"text", text'>>>>))
(* reading what was written gives the number back; a text without other characters denotes a number that writes as that text up to leading zeros *)
Small == -130..260
ASSUME \A x \in Small : LET t == TextOf(Of(x)) IN IF x >= 0 THEN IntOf(t) = Of(x) ELSE IntOf(t) = Zero /\ IntOf(Tail(t)) = Of(-x)
ASSUME \A ty \in {"i8", "u8"} : {x \in Small : Holds(ty, Of(x))} = (IF ty = "i8" THEN -128..127 ELSE 0..255)
ASSUME \A n \in 0..40, d \in 0..4 : Closest("f", Times(Of(n), Pow2(23)), 23, Of(n), 0) = (n \in {0, 1})
ASSUME \A x \in 0..40 : WritesFloat(Codes(Digits(MagOf(x \div 8))) \o <<Dot>> \o Codes(<<((x % 8) * 125) \div 100, (((x % 8) * 125) \div 10) % 10, ((x % 8) * 125) % 10, 0, 0, 0>>), Of(x), 3)
Laws == /\ (HasValue(text) /\ IsNumeric(text)) => /\ Leq(Times(IntOf(text), Pow10(Places(text))), Scaled(text))
                                                  /\ Lss(Scaled(text), Times(Plus(IntOf(text), Of(1)), Pow10(Places(text))))
        /\ ~IsNumeric(text) => IntOf(text) = Zero /\ Scaled(text) = Zero
=============================================================================
