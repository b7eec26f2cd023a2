----------------------------- MODULE MCSimulate -----------------------------
(* Draw, bin, dither: what is conserved on the way.                           *)
EXTENDS Simulate
CONSTANTS MaxN, MaxCell, Ks, Ds
VARIABLES K, d, cells, bins, dith, phase
vars == <<K, d, cells, bins, dith, phase>>
Top == IF K = 0 THEN MaxCell ELSE K
Init == K \in Ks /\ d \in Ds /\ cells = <<>> /\ bins = <<>> /\ dith = <<>> /\ phase = "draw"
Draw == phase = "draw" /\ Len(cells) < MaxN /\ \E k \in 0..(Top - 1) : cells' = Append(cells, k) /\ bins' = Append(bins, BinOf(k, d)) /\ UNCHANGED <<K, d, dith, phase>>
Stop == phase = "draw" /\ cells # <<>> /\ phase' = "dither" /\ UNCHANGED <<K, d, cells, bins, dith>>
(* the dithering works bin by bin in ascending order                          *)
Sorted == Pick(bins, SortedPerm(bins))
Dither == /\ phase = "dither" /\ Len(dith) < Len(bins)
          /\ \E r \in 0..(d - 1) : dith' = Append(dith, Sorted[Len(dith) + 1] * d + r)
          /\ UNCHANGED <<K, d, cells, bins, phase>>
Spec == Init /\ [][Draw \/ Stop \/ Dither]_vars
Done == phase = "dither" /\ Len(dith) = Len(bins)
In(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
BinCountsKept == Done => \A b \in 0..MaxCell : In([i \in 1..Len(dith) |-> BinOf(dith[i], d)], b) = In(bins, b)
BinsFromFirst == \A i \in 1..Len(bins) : bins[i] >= 0 /\ (K # 0 => bins[i] <= BinOf(K - 1, d))
(* the law: cells sum up, truncation is conditioning, bins follow by addition, memorylessness *)
LawOk == /\ Below(0, K) = <<0, 1>> /\ (K # 0 => Below(K, K) = <<1, 1>>)
         /\ \A k \in 0..(Top - 1) : RLt(Below(k, K), Below(k + 1, K))
         /\ K # 0 => \A k \in 0..K : REq(Below(k, K), RDiv(Below(k, 0), Below(K, 0)))
         /\ \A k \in 0..(MaxCell - 2) : REq(CellWeight(k + 1, 0), RMul(<<1, 2>>, CellWeight(k, 0)))
         /\ \A k \in 0..(Top - 2) : REq(CellWeight(k + 1, K), RMul(<<1, 2>>, CellWeight(k, K)))
SqrtOk == \A n \in 0..200 : LET s == ISqrt(n) IN s * s <= n /\ n < (s + 1) * (s + 1)
Emit == (phase = "dither" /\ dith = <<>>) => Case([k |-> K, d |-> d, b |-> bins])
=============================================================================
