-------------------------------- MODULE MCMc --------------------------------
(* Growing samples with the KS distance at every candidate, and the candidate *)
(* search run step by step.                                                   *)
EXTENDS McEstimation
CONSTANTS Top, MaxLen, Qs, Thresholds, Kd
VARIABLES m, q, thr, stop, phase, i, tested, passed, done
vars == <<m, q, thr, stop, phase, i, tested, passed, done>>
Init == /\ m = <<>> /\ q \in Qs /\ thr \in Thresholds /\ stop \in BOOLEAN
        /\ phase = "grow" /\ i = 1 /\ tested = <<>> /\ passed = NONE /\ done = FALSE
Grow == /\ phase = "grow" /\ Len(m) < MaxLen
        /\ \E v \in 0..Top : v >= (IF m = <<>> THEN v ELSE m[Len(m)]) /\ m' = Append(m, v)
        /\ UNCHANGED <<q, thr, stop, phase, i, tested, passed, done>>
Begin == /\ phase = "grow" /\ m # <<>> /\ phase' = "search"
         /\ UNCHANGED <<m, q, thr, stop, i, tested, passed, done>>
Cands == [k \in 1..(Top + 1) |-> k - 1]
P(c) == LET a == Above(m, c) IN
        IF Degenerate(a, q) THEN <<0, 1>> ELSE PValue(KsDist(a, Ones(a), c, q), Kd)
Ok(c) == RLe(thr, P(c))
TestOne == /\ phase = "search" /\ ~done /\ i <= Len(Cands)
           /\ tested' = Append(tested, Cands[i])
           /\ passed' = IF Ok(Cands[i]) /\ passed = NONE THEN Cands[i] ELSE passed
           /\ done' = (Ok(Cands[i]) /\ stop)
           /\ i' = i + 1 /\ UNCHANGED <<m, q, thr, stop, phase>>
Next == Grow \/ Begin \/ TestOne
Spec == Init /\ [][Next]_vars
Finished == phase = "search" /\ (done \/ i > Len(Cands))
SearchAgrees == Finished => /\ passed = KsBest(Cands, Ok)
                            /\ tested = KsTested(Cands, Ok, stop)
SmallestPasses == Finished => \A k \in 1..Len(tested) : tested[k] < passed => ~Ok(tested[k])
DegenerateNeverPasses == Finished /\ passed # NONE => Distinct(Above(m, passed)) > 1
DistanceInUnit == phase = "search" => \A c \in 0..Top : Above(m, c) # <<>> =>
  LET d == KsDist(Above(m, c), Ones(Above(m, c)), c, q) IN RLe(<<0, 1>>, d) /\ RLe(d, <<1, 1>>)
(* repeating the whole sample, or shifting it with mc, leaves the distance    *)
RepeatShift == phase = "search" => \A c \in 0..Top : Above(m, c) # <<>> =>
  LET a == Above(m, c) d == KsDist(a, Ones(a), c, q)
  IN /\ REq(d, KsDist(a \o a, Ones(a \o a), c, q))
     /\ REq(d, KsDist([k \in 1..Len(a) |-> a[k] + 5], Ones(a), c + 5, q))
     /\ REq(d, KsDist(a, [k \in 1..Len(a) |-> 3], c, q))
Emit == Finished => Case([m |-> m, q |-> q, thr |-> thr, stop |-> stop])
=============================================================================
