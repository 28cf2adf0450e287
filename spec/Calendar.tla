------------------------------ MODULE Calendar ------------------------------
(* The Gregorian calendar, instants and local time. Days are counted from     *)
(* 1970-01-01; an instant is <<day, second of the day>> in UTC; a wall clock  *)
(* reading is a record of date and time fields.                               *)
EXTENDS Big
VARIABLE dead
(* ------------------------------- calendar -------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
(* day number of a date (closed form) *)
DayNo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
(* the date of a day number *)
DateOf(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), mo |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
WeekDay(n) == ((n + 3) % 7) + 1                      \* Monday = 1 .. Sunday = 7
YearDay(n) == n - DayNo(DateOf(n).y, 1, 1) + 1       \* from 1

(* ------------------------- wall clock readings --------------------------- *)
(* a year that is not positive stands for 1900 in calculations *)
Eff(y) == IF y > 0 THEN y ELSE 1900
(* <<day, second>> of fields that may be out of range *)
WallAt(y, mo, d, h, mi, s) ==
  LET sod == h * 3600 + mi * 60 + s IN
  <<DayNo(y + (mo - 1) \div 12, ((mo - 1) % 12) + 1, 1) + d - 1 + sod \div 86400, sod % 86400>>
Wall(v) == WallAt(Eff(v.y), v.mo, v.d, v.h, v.mi, v.s)
Moved(v, q) == WallAt(Eff(v.y) + q.y, v.mo + q.mo, v.d + q.d, v.h + q.h, v.mi + q.mi, v.s + q.s)
(* the fields of a reading *)
Reads(w, r) == LET dt == DateOf(w[1]) IN
  /\ r.y = dt.y /\ r.mo = dt.mo /\ r.d = dt.d /\ r.h = w[2] \div 3600 /\ r.mi = (w[2] \div 60) % 60 /\ r.s = w[2] % 60
  /\ r.wd = WeekDay(w[1]) /\ r.yd = YearDay(w[1])
InRange(v) == /\ v.y >= 1 /\ v.mo \in 1..12 /\ v.d \in 1..MonthDays(v.y, v.mo) /\ v.h \in 0..23 /\ v.mi \in 0..59 /\ v.s \in 0..59

(* creation adjusts every field to its range; day 32 and up is the last of the month *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Created(a) ==
  LET y == IF a.y < 0 THEN 1900 ELSE a.y  mo == Clamp(a.mo, 1, 12) IN
  [y |-> y, mo |-> mo, d |-> IF a.d < 1 THEN 1 ELSE IF a.d > 31 THEN MonthDays(y, mo) ELSE a.d,
   h |-> Clamp(a.h, 0, 23), mi |-> Clamp(a.mi, 0, 59), s |-> Clamp(a.s, 0, 60)]

(* ------------------------------ time zones ------------------------------- *)
(* offsets in seconds east; summer time between the sa-th Sunday of month ma, *)
(* ha o'clock standard time and the sb-th Sunday of mb, hb o'clock summer time *)
Fixed(o) == [std |-> o, dst |-> o, rule |-> <<>>]
Zone(id) ==
  CASE id = "utc" -> Fixed(0)
    [] id = "ist" -> Fixed(19800)
    [] id = "est" -> [std |-> -18000, dst |-> -14400, rule |-> <<3, 2, 2, 11, 1, 2>>]
    [] id = "aest" -> [std |-> 36000, dst |-> 39600, rule |-> <<10, 1, 2, 4, 1, 3>>]
Shift(t, k) == LET s == t[2] + k IN <<t[1] + s \div 86400, s % 86400>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sunday(y, m, w) == LET f == DayNo(y, m, 1) IN f + (7 - WeekDay(f)) + 7 * (w - 1)
Summer(z, u) == \* instant u (UTC)
  /\ z.rule # <<>>
  /\ LET y == DateOf(Shift(u, z.std)[1]).y
         a == Shift(<<Sunday(y, z.rule[1], z.rule[2]), z.rule[3] * 3600>>, -z.std)
         b == Shift(<<Sunday(y, z.rule[4], z.rule[5]), z.rule[6] * 3600>>, -z.dst)
     IN IF Before(a, b) THEN ~Before(u, a) /\ Before(u, b) ELSE ~(~Before(u, b) /\ Before(u, a))
Offset(z, u) == IF Summer(z, u) THEN z.dst ELSE z.std
(* the instants at which the clocks of zone z show w: none in the spring gap, two in the autumn hour *)
Instants(z, w) == {u \in {Shift(w, -z.std), Shift(w, -z.dst)} : Shift(u, Offset(z, u)) = w}
Shown(z, u) == Shift(u, Offset(z, u))
Epoch(u) == Plus(Times(Of(u[1]), Of(86400)), Of(u[2]))
(* right answers for converting a reading to seconds *)
SecsOK(z, w, x) == LET I == Instants(z, w) IN IF I = {} THEN TRUE ELSE \E u \in I : x = Epoch(u)
(* the differences in seconds; more than one when a reading occurs twice, none when one never occurs *)
Diffs(z, w1, w2) == {Minus(Epoch(u), Epoch(v)) : u \in Instants(z, w1), v \in Instants(z, w2)}
(* moving a reading; the seconds may also count as elapsed time across a change of the clocks *)
MovedOK(z, v, q, r) ==
  LET w == Moved(v, q)
      m == WallAt(Eff(v.y) + q.y, v.mo + q.mo, v.d + q.d, v.h + q.h, v.mi + q.mi, 0)
      I == Instants(z, w)  J == Instants(z, m)
  IN I = {} \/ J = {} \/ Reads(w, r) \/ \E u \in J : Reads(Shown(z, Shift(u, v.s + q.s)), r)
(* d seconds as days, hours, minutes, seconds, all toward zero *)
Parts(x) == [d |-> Quot(x, Of(86400)), h |-> Quot(Rem(x, Of(86400)), Of(3600)), mi |-> Quot(Rem(x, Of(3600)), Of(60)), s |-> Rem(x, Of(60))]
=============================================================================
