----------------------------- MODULE StrLawsMC -----------------------------
(* The text operators of StrOps satisfy their defining laws on all small     *)
(* texts, needles and replacements.                                          *)
EXTENDS StrOps
CONSTANTS Alphabet, MaxLen, MaxZ
VARIABLES s, z
TextsUpTo(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == s \in TextsUpTo(MaxLen) /\ z = <<-1>>
Next == z = <<-1>> /\ z' \in TextsUpTo(MaxZ) /\ UNCHANGED s
Laws == z # <<-1>> => \A r \in TextsUpTo(MaxZ) : StrLaws(s, z, r)
=============================================================================
