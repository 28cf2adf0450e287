----------------------------- MODULE CalendarMC -----------------------------
(* A calendar that is simply turned one day at a time, as the reference for   *)
(* the closed forms.                                                          *)
EXTENDS Calendar, TLC, Json, FiniteSets
CONSTANTS FromYear, ToYear
VARIABLES y, m, d, n, wd, yd
vars == <<y, m, d, n, wd, yd, dead>>
CONSTANT Step
MCInit == y \in {x \in FromYear..ToYear : (x - FromYear) % Step = 0} /\ m = 1 /\ d = 1 /\ n = DayNo(y, 1, 1) /\ wd = WeekDay(n) /\ yd = 1 /\ dead = FALSE
MCNext == /\ y <= ToYear /\ n' = n + 1 /\ wd' = (wd % 7) + 1 /\ UNCHANGED dead
          /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ yd' = yd + 1 /\ UNCHANGED <<y, m>>
             ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ yd' = yd + 1 /\ UNCHANGED y
             ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ yd' = 1
Agrees == DayNo(y, m, d) = n /\ DateOf(n) = [y |-> y, mo |-> m, d |-> d] /\ WeekDay(n) = wd /\ YearDay(n) = yd
LastDay == (m = 12 /\ d = 31) => yd = YearDays(y)
Anchor == (y = 1970 /\ m = 1 /\ d = 1) => n = 0 /\ wd = 4
(* out-of-range fields mean the same as their normal form *)
Normal == /\ WallAt(y, m + 12, d, 24, 60, 60) = <<DayNo(y + 1, m, d) + 1, 3660>>
          /\ WallAt(y, m - 12, d, -24, 0, -1) = <<DayNo(y - 1, m, d) - 2, 86399>>
          /\ WallAt(y, 1, yd, 0, 0, 0) = <<n, 0>>
(* clocks: every instant is shown by one reading, and reading it back finds the instant *)
Clocks == d \in {1, 2, 8, 14, 15, 31} \/ wd = 7 => \A id \in {"est", "aest", "ist"} : \A s \in {0, 3600, 5400, 7200, 9000, 10800, 25200, 54000, 57600, 86399} :
            LET z == Zone(id) IN \E u \in Instants(z, Shown(z, <<n, s>>)) : u = <<n, s>>
(* once a year the clocks jump over an hour and once they repeat one *)
Gaps == (y = FromYear + 5 /\ m = 1 /\ d = 1) => \A id \in {"est", "aest"} :
          LET z == Zone(id) g == {k \in 0..366 : \E h \in 0..23 : Instants(z, <<n + k, h * 3600 + 1800>>) = {}}
              t == {k \in 0..366 : \E h \in 0..23 : Cardinality(Instants(z, <<n + k, h * 3600 + 1800>>)) = 2} IN Cardinality(g) = 1 /\ Cardinality(t) = 1
=============================================================================
