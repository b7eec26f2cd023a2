---------------------------- MODULE MCBootstrap ------------------------------
(* Draws, one element at a time; every complete resample gives an estimate,   *)
(* and the spread is kept as a running sum of squared deviations times the    *)
(* number of estimates (Welford), against the declared variance.              *)
EXTENDS Bootstrap
CONSTANTS Vals, MaxN, Rounds, Stat
VARIABLES sample, re, n, sum, ssq, est, phase
vars == <<sample, re, n, sum, ssq, est, phase>>
(* the statistic: largest, number of ones, or undefined for some resamples    *)
Value(r) == CASE Stat = "max" -> MaxSeq(r)
              [] Stat = "sum" -> SumSeq(r)
              [] Stat = "odd" -> IF SumSeq(r) % 2 = 0 THEN NaNV ELSE IF MaxSeq(r) = MinSeq(r) THEN INFV ELSE SumSeq(r)
Init == sample \in SeqsBetween(Vals, 1, MaxN) /\ re = <<>> /\ n = 0 /\ sum = 0 /\ ssq = <<0, 1>> /\ est = <<>> /\ phase = "draw"
Draw == /\ phase = "draw" /\ Len(re) < Len(sample) /\ \E i \in 1..Len(sample) : re' = Append(re, sample[i])
        /\ UNCHANGED <<sample, n, sum, ssq, est, phase>>
Estimate == /\ phase = "draw" /\ Len(re) = Len(sample) /\ Len(est) < Rounds
            /\ LET x == Value(re) IN
                 /\ est' = Append(est, x)
                 /\ IF Valid(x) THEN /\ n' = n + 1 /\ sum' = sum + x
                                     /\ ssq' = (IF n = 0 THEN ssq ELSE RAdd(ssq, Rat((n * x - sum) * (n * x - sum), n * (n + 1))))
                    ELSE UNCHANGED <<n, sum, ssq>>
            /\ re' = <<>> /\ UNCHANGED <<sample, phase>>
End == phase = "draw" /\ Len(est) = Rounds /\ re = <<>> /\ phase' = "done" /\ UNCHANGED <<sample, re, n, sum, ssq, est>>
Next == Draw \/ Estimate \/ End
Spec == Init /\ [][Next]_vars
WelfordIsVariance == n >= 2 => REq(RDiv(ssq, <<n - 1, 1>>), Variance(Finite(est)))
InvalidLeftOut == n = Len(Finite(est))
DrawsFromSample == \A i \in 1..Len(re) : \E j \in 1..Len(sample) : re[i] = sample[j]
ConstantNoSpread == (n >= 2 /\ MaxSeq(sample) = MinSeq(sample)) => ssq = <<0, 1>>
ShiftFree == n >= 2 => Variance([i \in 1..n |-> Finite(est)[i] + 7]) = Variance(Finite(est))
Emit == phase = "done" /\ re = <<>> => Case([s |-> sample])
=============================================================================
