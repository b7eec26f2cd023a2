----------------------------- MODULE OpenQuake ------------------------------
(* Conversion of a catalogue to the date and time fields of OpenQuake and     *)
(* back.  A time is <<day, second, micro>>: days since 1970-01-01 of the      *)
(* proleptic Gregorian calendar, second of the day, microsecond.              *)
EXTENDS Common

(* ------------------------------------------------ calendar                  *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysOf(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
(* days before 1 January of year y >= 1, counted from 0001-01-01              *)
BeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
Cumulated == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
BeforeMonth(y, m) == Cumulated[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
EPOCH == 719162                  \* BeforeYear(1970)
DayNo(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d - 1 - EPOCH
YearOf(n) == LET k == n + EPOCH
                 g == k \div 365 + 1        \* not below the year
             IN CHOOSE y \in (g - g \div 1400 - 3)..g : BeforeYear(y) <= k /\ k < BeforeYear(y + 1)
Civil(n) == LET y == YearOf(n)
                r == n + EPOCH - BeforeYear(y)
                m == CHOOSE q \in 1..12 : BeforeMonth(y, q) <= r /\ r < BeforeMonth(y, q) + DaysOf(y, q)
            IN <<y, m, r - BeforeMonth(y, m) + 1>>

(* ------------------------------------------------ times and fields          *)
(* fields: year, month, day, hour, minute, second in microseconds             *)
Fields(t) == Civil(t[1]) \o <<t[2] \div 3600, (t[2] \div 60) % 60, (t[2] % 60) * 1000000 + t[3]>>
TimeOf(f) ==
  LET s == 3600 * f[4] + 60 * f[5] + f[6] \div 1000000 IN
  <<DayNo(f[1], f[2], f[3]) + s \div 86400, s % 86400, f[6] % 1000000>>
IsFields(f) == /\ f[1] \in 1..9999 /\ f[2] \in 1..12 /\ f[3] \in 1..DaysOf(f[1], f[2])
               /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..60000000

(* ------------------------------------------------ conversions               *)
(* A catalogue: the times, and for every other column its cells.              *)
TimeFields == {"year", "month", "day", "hour", "minute", "second", "microsecond"}
Has(c, name) == \E i \in 1..Len(c) : c[i].n = name
Col(c, name) == c[CHOOSE i \in 1..Len(c) : c[i].n = name].v
Names(c) == {c[i].n : i \in 1..Len(c)}
SameCells(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
=============================================================================
