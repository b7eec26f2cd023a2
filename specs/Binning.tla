------------------------------ MODULE Binning ------------------------------
(* Binning of magnitudes, consistency decision, frequency-magnitude           *)
(* distributions and maximum curvature (C01, C02, C03).                       *)
(*                                                                            *)
(* State: a heap of catalogue objects [mags, delta]; delta = 0 means unset.   *)
EXTENDS Common

---------------------------------------------------------------------------
(* C01: nearest multiple of w, ties to the larger multiple.                   *)
BinV(v, w) == IF v = NaNV THEN NaNV ELSE ((2 * v + w) \div (2 * w)) * w
BinSeq(s, w) == [i \in 1..Len(s) |-> BinV(s[i], w)]

(* Transition of the heap: Catalog.bin_magnitudes(w, inplace) on object o.    *)
(* w = 0: no explicit width; w < 0: refused.                                  *)
EffWidth(h, o, w) == IF w # 0 THEN w ELSE h[o].delta
BinErr(h, o, w) == EffWidth(h, o, w) <= 0
BinStep(h, o, w, inplace) ==
  IF BinErr(h, o, w) THEN h
  ELSE LET e == EffWidth(h, o, w)
           n == [mags |-> BinSeq(h[o].mags, e), delta |-> e]
       IN IF inplace THEN [h EXCEPT ![o] = n] ELSE Append(h, n)
(* Setting the catalogue's own width attribute                                *)
SetStep(h, o, w) == [h EXCEPT ![o].delta = w]

---------------------------------------------------------------------------
(* C02: consistency of a sample with a width; big = next larger power of ten  *)
Finite(s) == SelectSeq(s, LAMBDA v : v # NaNV)
AllMultiples(s, w) == \A i, j \in 1..Len(s) : (s[i] - s[j]) % w = 0
Consistent(s, w, big, larger) ==
  LET f == Finite(s) IN
  AllMultiples(f, w) /\ (larger => ~AllMultiples(f, big))
(* width zero: no binning at all; g = smallest power of ten above the         *)
(* tolerance.  A sample on any coarser power of ten is on that one too.       *)
Unbinned(s, g, larger) == larger => ~AllMultiples(Finite(s), g)

---------------------------------------------------------------------------
(* C03: distributions.  ws: integer weights (one per event)                   *)
FmdBins(s, w) ==
  LET b == BinSeq(s, w)
      lo == MinSeq(b)
      hi == MaxSeq(b)
  IN [k \in 1..((hi - lo) \div w + 1) |-> lo + (k - 1) * w]
FmdCounts(s, ws, w) ==
  LET b == BinSeq(s, w)
      bins == FmdBins(s, w)
  IN [k \in 1..Len(bins) |->
        SumSeq([i \in 1..Len(s) |-> IF b[i] = bins[k] THEN ws[i] ELSE 0])]
CumBins(s, w) == IF w = 0 THEN SetToSortSeq(Range(s), <) ELSE FmdBins(s, w)
CumCounts(s, ws, w) ==
  LET b == IF w = 0 THEN s ELSE BinSeq(s, w)
      bins == CumBins(s, w)
  IN [k \in 1..Len(bins) |->
        SumSeq([i \in 1..Len(s) |-> IF b[i] >= bins[k] THEN ws[i] ELSE 0])]
BinPos(bins, w, left) == [k \in 1..Len(bins) |-> IF left THEN 2 * bins[k] - w ELSE 2 * bins[k]]  \* in half units

Ones(s) == [i \in 1..Len(s) |-> 1]
MaxCurv(s, w, corr) ==
  LET f == Finite(s)
      bins == FmdBins(f, w)
      c == FmdCounts(f, Ones(f), w)
      m == MaxSeq(c)
      k == CHOOSE i \in 1..Len(c) : c[i] = m /\ \A j \in 1..(i - 1) : c[j] < m
  IN bins[k] + corr
=============================================================================
