------------------------------- MODULE MCFmd -------------------------------
(* Exhaustive model of the frequency-magnitude distribution (C03): events     *)
(* arrive one at a time and are counted into a growing histogram; the         *)
(* histogram always agrees with the declarative definition.                   *)
EXTENDS Binning
CONSTANTS Vals, Wts, W, MaxLen
VARIABLES mags, wts, lo, hist
vars == <<mags, wts, lo, hist>>
Init == \E v \in Vals, w \in Wts : mags = <<v>> /\ wts = <<w>> /\ lo = BinV(v, W) /\ hist = <<w>>
(* insert: extend the histogram to the left or right with empty bins          *)
Insert(v, w) ==
  LET b == BinV(v, W)
      k == (b - lo) \div W                     \* offset of the bin
      n == Len(hist)
      h == IF k < 0 THEN [i \in 1..(-k) |-> 0] \o hist
           ELSE IF k >= n THEN hist \o [i \in 1..(k - n + 1) |-> 0]
           ELSE hist
      p == IF k < 0 THEN 1 ELSE k + 1
  IN /\ hist' = [h EXCEPT ![p] = @ + w]
     /\ lo' = Min2(lo, b)
     /\ mags' = Append(mags, v)
     /\ wts' = Append(wts, w)
Next == Len(mags) < MaxLen /\ \E v \in Vals, w \in Wts : Insert(v, w)
Spec == Init /\ [][Next]_vars
Incremental == /\ hist = FmdCounts(mags, wts, W)
               /\ FmdBins(mags, W)[1] = lo
Conserved == /\ SumSeq(FmdCounts(mags, wts, W)) = SumSeq(wts)
             /\ CumCounts(mags, wts, W)[1] = SumSeq(wts)
             /\ SumSeq(FmdCounts(mags, Ones(mags), W)) = Len(mags)
Telescopes == LET c == CumCounts(mags, wts, W) f == FmdCounts(mags, wts, W) IN
  \A k \in 1..Len(c) : c[k] - (IF k = Len(c) THEN 0 ELSE c[k + 1]) = f[k]
Contiguous == LET b == FmdBins(mags, W) IN
  /\ \A k \in 1..(Len(b) - 1) : b[k + 1] - b[k] = W
  /\ \A i \in 1..Len(mags) : \E k \in 1..Len(b) : BinV(mags[i], W) = b[k]
  /\ FmdCounts(mags, Ones(mags), W)[1] > 0 /\ FmdCounts(mags, Ones(mags), W)[Len(b)] > 0
FullestLowest == LET m == MaxCurv(mags, W, 0) c == FmdCounts(mags, Ones(mags), W) b == FmdBins(mags, W) IN
  \E k \in 1..Len(b) : b[k] = m /\ \A j \in 1..Len(b) : c[j] < c[k] \/ (c[j] = c[k] /\ j >= k)
Emit == Case([m |-> mags, w |-> wts])
=============================================================================
