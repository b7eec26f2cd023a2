---------------------------- MODULE MCLilliefors -----------------------------
(* The largest distance found by walking up the magnitude axis one unit at a  *)
(* time, against its declaration; its invariances; the integer exponential.   *)
EXTENDS Lilliefors
CONSTANTS Vals, MaxN
VARIABLES v, x, seen, d, phase
vars == <<v, x, seen, d, phase>>
Init == v \in SeqsBetween(Vals, 2, MaxN) /\ SumSeq(v) > 0 /\ x = 0 /\ seen = 0 /\ d = 0 /\ phase = "walk"
Step == /\ phase = "walk" /\ x <= MaxSeq(v)
        /\ LET at == Cardinality({i \in 1..Len(v) : v[i] = x})
               c == CdfS(x, Len(v), SumSeq(v))
               up == (ONE * (seen + at)) \div Len(v) - c
               down == c - (ONE * seen) \div Len(v)
           IN /\ seen' = seen + at
              /\ d' = (IF at = 0 THEN d ELSE Max2(d, Max2(up, down)))
        /\ x' = x + 1 /\ UNCHANGED <<v, phase>>
End == phase = "walk" /\ x > MaxSeq(v) /\ phase' = "done" /\ UNCHANGED <<v, x, seen, d>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
WalkIsSpec == phase = "done" => d = Distance(v)
InRange == phase = "done" => d >= ONE \div (2 * Len(v)) - 1 /\ d <= ONE
OrderFree == phase = "done" => Distance([i \in 1..Len(v) |-> v[Len(v) + 1 - i]]) = d
UnitFree == phase = "done" => /\ Shape([i \in 1..Len(v) |-> 3 * v[i]]) = Shape(v)
                              /\ Abs(Distance([i \in 1..Len(v) |-> 3 * v[i]]) - d) <= 15
RepeatsKeep == phase = "done" => Abs(Distance(v \o v) - d) <= 15
Brackets == phase = "done" => LET b == [i \in 1..Len(v) |-> 2 * v[i]] IN   \* bins of half a unit
                LowDistance(b) <= HighDistance(b)
(* any placement of the values inside their bins keeps the bounds             *)
Inside == phase = "done" => LET b == [i \in 1..Len(v) |-> v[i] \div 2] IN LowDistance(b) - 15 <= Distance(v) /\ Distance(v) <= HighDistance(b) + 15
Exponential == \A q \in 0..60 : Abs(ExpNeg(50 * q) - (ExpNeg(25 * q) * ExpNeg(25 * q)) \div ONE) <= 6
LevelsFall == \A i \in 1..(Len(Levels) - 1) : Levels[i][1] > Levels[i + 1][1] /\ Levels[i][2] < Levels[i + 1][2]
Emit == phase = "done" => Case([v |-> v])
=============================================================================
