----------------------------- MODULE Bootstrap -------------------------------
(* Standard deviation of a statistic over resamples of a sample.  Estimates   *)
(* are integers; NaNV stands for NaN and INFV, -INFV for infinities.          *)
EXTENDS Common
INFV == 2000000
NOSEED == -1
Valid(x) == x # NaNV /\ Abs(x) # INFV
Finite(es) == SelectSeq(es, Valid)
(* squared standard deviation (with one degree of freedom less) as a rational *)
Variance(es) == LET k == Len(es)
                    s == SumSeq(es)
                    q == SumSeq([i \in 1..k |-> es[i] * es[i]])
                IN IF k < 2 THEN NAN ELSE Rat(k * q - s * s, k * (k - 1))
(* std in 1e-3 agrees with the variance                                       *)
SquareNear(x, r) == LET lo == (x - 1) * (x - 1)
                        hi == (x + 1) * (x + 1)
                        v == (r[1] \div r[2]) * 1000000 + 1000 * (((r[1] % r[2]) * 1000) \div r[2])
                    IN (IF x = 0 THEN TRUE ELSE lo <= v + 1000) /\ v <= hi + 1000
InSample(sample, re) == /\ Len(re) = Len(sample)
                        /\ {re[i] : i \in 1..Len(re)} \subseteq {sample[j] : j \in 1..Len(sample)}
=============================================================================
