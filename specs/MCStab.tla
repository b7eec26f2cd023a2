------------------------------- MODULE MCStab -------------------------------
(* The stability search step by step over all small samples.                  *)
EXTENDS McEstimation
CONSTANTS Lo, Hi, MaxLen, Ranges
VARIABLES m, rng, stop, phase, i, best, ratios
vars == <<m, rng, stop, phase, i, best, ratios>>
Init == /\ m = <<>> /\ rng \in Ranges /\ stop \in BOOLEAN /\ phase = "grow" /\ i = 1 /\ best = NONE /\ ratios = <<>>
Grow == /\ phase = "grow" /\ Len(m) < MaxLen
        /\ \E v \in Lo..Hi : v >= (IF m = <<>> THEN v ELSE m[Len(m)]) /\ m' = Append(m, v)
        /\ UNCHANGED <<rng, stop, phase, i, best, ratios>>
Begin == /\ phase = "grow" /\ m # <<>> /\ phase' = "search" /\ UNCHANGED <<m, rng, stop, i, best, ratios>>
Cs == StabCands(m, <<>>, TRUE, rng)
TestOne == /\ phase = "search" /\ i <= Len(Cs)
           /\ LET r == RatioSq("stub", m, Cs[i], rng)
                  better == \A k \in 1..Len(ratios) : StabPass(ratios[k]) => RLt(r, ratios[k])
              IN /\ ratios' = Append(ratios, r)
                 /\ best' = IF StabPass(r) /\ better THEN Cs[i] ELSE best
                 /\ phase' = IF StabPass(r) /\ stop THEN "done" ELSE phase
           /\ i' = i + 1 /\ UNCHANGED <<m, rng, stop>>
Next == Grow \/ Begin \/ TestOne
Spec == Init /\ [][Next]_vars
Finished == phase = "done" \/ (phase = "search" /\ i > Len(Cs))
AllRatios == [k \in 1..Len(Cs) |-> RatioSq("stub", m, Cs[k], rng)]
Agrees == Finished => best \in StabBest(Cs, AllRatios, stop) /\ SubSeq(Cs, 1, Len(ratios)) = StabTested(Cs, AllRatios, stop)
CandidatesCover == phase = "search" => \A k \in 1..Len(Cs) : Cs[k] + rng <= MaxSeq(m) /\ Cs[k] >= MinSeq(m)
Emit == Finished => Case([m |-> m, rng |-> rng, stop |-> stop])
=============================================================================
