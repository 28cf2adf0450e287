------------------------------ MODULE DateText ------------------------------
(* Date texts: the layouts, writing and reading them. Form: "p" plain,        *)
(* "i" ISO, "e" extended ISO, "y" pretty.                                     *)
EXTENDS Calendar
Dig(n, k) == [i \in 1..k |-> 48 + ((n \div (10 ^ (k - i))) % 10)]
Y4(v) == Dig(v.y, 4)
D2(n) == Dig(n, 2)
DayNames == << <<77, 111, 110>>, <<84, 117, 101>>, <<87, 101, 100>>, <<84, 104, 117>>, <<70, 114, 105>>, <<83, 97, 116>>, <<83, 117, 110>> >>
MonthNames == << <<74, 97, 110>>, <<70, 101, 98>>, <<77, 97, 114>>, <<65, 112, 114>>, <<77, 97, 121>>, <<74, 117, 110>>, <<74, 117, 108>>, <<65, 117, 103>>, <<83, 101, 112>>, <<79, 99, 116>>, <<78, 111, 118>>, <<68, 101, 99>> >>
Sp == <<32>>  Hy == <<45>>  Co == <<58>>  Te == <<84>>
Text(form, v) ==
  CASE form = "p" -> Y4(v) \o Hy \o D2(v.mo) \o Hy \o D2(v.d) \o Sp \o D2(v.h) \o Co \o D2(v.mi) \o Co \o D2(v.s)
    [] form = "i" -> Y4(v) \o D2(v.mo) \o D2(v.d) \o Te \o D2(v.h) \o D2(v.mi) \o D2(v.s)
    [] form = "e" -> Y4(v) \o Hy \o D2(v.mo) \o Hy \o D2(v.d) \o Te \o D2(v.h) \o Co \o D2(v.mi) \o Co \o D2(v.s)
    [] form = "y" -> DayNames[v.wd] \o Sp \o MonthNames[v.mo] \o Sp \o (IF v.d < 10 THEN Sp \o Dig(v.d, 1) ELSE D2(v.d)) \o Sp \o D2(v.h) \o Co \o D2(v.mi) \o Co \o D2(v.s) \o Sp \o Y4(v)
Room == 26
(* the layout: 0 stands for a digit *)
Layout(form) ==
  CASE form = "p" -> <<0, 0, 0, 0, 45, 0, 0, 45, 0, 0, 32, 0, 0, 58, 0, 0, 58, 0, 0>>
    [] form = "i" -> <<0, 0, 0, 0, 0, 0, 0, 0, 84, 0, 0, 0, 0, 0, 0>>
    [] form = "e" -> <<0, 0, 0, 0, 45, 0, 0, 45, 0, 0, 84, 0, 0, 58, 0, 0, 58, 0, 0>>
Valid(form, t) == /\ Len(t) = Len(Layout(form))
                  /\ \A i \in 1..Len(t) : IF Layout(form)[i] = 0 THEN t[i] \in 48..57 ELSE t[i] = Layout(form)[i]
RECURSIVE OnlyDigits(_)
OnlyDigits(t) == IF t = <<>> THEN <<>> ELSE IF t[1] \in 48..57 THEN <<t[1] - 48>> \o OnlyDigits(Tail(t)) ELSE OnlyDigits(Tail(t))
N2(g, i) == 10 * g[i] + g[i + 1]
(* the fields a valid text names *)
FieldsOf(t) == LET g == OnlyDigits(t) IN [y |-> 100 * N2(g, 1) + N2(g, 3), mo |-> N2(g, 5), d |-> N2(g, 7), h |-> N2(g, 9), mi |-> N2(g, 11), s |-> N2(g, 13)]
Printable(v) == v.y \in 1000..9999 /\ v.mo \in 1..12 /\ v.d \in 1..31 /\ v.h \in 0..23 /\ v.mi \in 0..59 /\ v.s \in 0..60
=============================================================================
