---------------------------- MODULE MCOpenQuake -----------------------------
(* A clock walks through the days of the calendar one by one; the day numbers *)
(* and fields of the specification must agree with it.                        *)
EXTENDS OpenQuake
CONSTANTS Starts, Years
VARIABLES y, m, d, n, from
vars == <<y, m, d, n, from>>
RECURSIVE Sum(_)
Sum(k) == IF k < 1 THEN 0 ELSE YearDays(k) + Sum(k - 1)
Init == from \in Starts /\ y = from /\ m = 1 /\ d = 1 /\ n = Sum(from - 1) - Sum(1969)
Next == /\ y < from + Years /\ n' = n + 1 /\ UNCHANGED from
        /\ IF d < DaysOf(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Next]_vars
NumberIsCount == DayNo(y, m, d) = n
CivilIsDate == Civil(n) = <<y, m, d>>
Samples == {<<0, 0>>, <<0, 1>>, <<59, 999999>>, <<3599, 5>>, <<3600, 0>>, <<43200, 500000>>, <<86399, 999999>>}
RoundTrip == \A s \in Samples : LET t == <<n, s[1], s[2]>>  f == Fields(t) IN IsFields(f) /\ TimeOf(f) = t
(* a second rounded up to 60 is the next minute                               *)
Carries == TimeOf(<<y, m, d, 23, 59, 60000000>>) = <<n + 1, 0, 0>>
Emit == ((d = 1 \/ d = DaysOf(y, m)) /\ m \in {1, 2, 3, 12}) => Case([y |-> y, m |-> m, d |-> d])
=============================================================================
