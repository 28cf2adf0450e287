-------------------------------- MODULE Runs --------------------------------
(* Byte sequences of any length, run-length encoded: sequences of             *)
(* <<byte, count>>, counts positive, neighbouring runs different.             *)
EXTENDS Integers, Sequences
RECURSIVE Size(_), Take(_, _)
Size(x) == IF x = <<>> THEN 0 ELSE x[1][2] + Size(Tail(x))
Run(b, n) == IF n = 0 THEN <<>> ELSE << <<b, n>> >>
Cat(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x
             ELSE LET a == x[Len(x)] b == y[1] IN
                  IF a[1] = b[1] THEN SubSeq(x, 1, Len(x) - 1) \o << <<a[1], a[2] + b[2]>> >> \o Tail(y) ELSE x \o y
Take(x, n) == IF x = <<>> \/ n <= 0 THEN <<>> ELSE IF x[1][2] >= n THEN Run(x[1][1], n) ELSE << x[1] >> \o Take(Tail(x), n - x[1][2])
IsPrefix(p, x) == p = Take(x, Size(p))
Canon(x) == (\A i \in 1..Len(x) : x[i][2] > 0 /\ x[i][1] \in 0..255) /\ (\A i \in 2..Len(x) : x[i][1] # x[i - 1][1])
(* what lies behind the first n bytes; n bytes from place p; y laid over x from place p; the bytes themselves *)
RECURSIVE Behind(_, _), Plain(_)
Behind(x, n) == IF x = <<>> \/ n <= 0 THEN x ELSE IF x[1][2] > n THEN << <<x[1][1], x[1][2] - n>> >> \o Tail(x) ELSE Behind(Tail(x), n - x[1][2])
Slice(x, p, n) == Take(Behind(x, p), n)
Over(x, p, y) == Cat(Cat(Take(x, p), y), Behind(x, p + Size(y)))
Plain(x) == IF x = <<>> THEN <<>> ELSE [i \in 1..x[1][2] |-> x[1][1]] \o Plain(Tail(x))
=============================================================================
