-------------------------------- MODULE Plots --------------------------------
(* What the plots show.  Events are [t, m, w] (time, magnitude or NaN,        *)
(* weight) in integer units; D is the bin width of the magnitudes.            *)
EXTENDS Binning, BSignificant
------------------------------------------------------------------------------
(* (Cumulative) frequency-magnitude distributions: the non-NaN events         *)
Valid(E) == SelectSeq(E, LAMBDA e : e.m # NaNV)
Ms(E) == [i \in 1..Len(E) |-> E[i].m]
Ws(E) == [i \in 1..Len(E) |-> E[i].w]
FmdShown(E, w, left) == LET V == TLCEval(Valid(E)) IN
  [x |-> BinPos(FmdBins(Ms(V), w), w, left), y |-> FmdCounts(Ms(V), Ws(V), w)]
CumShown(E, w, left) == LET V == TLCEval(Valid(E)) IN
  [x |-> BinPos(CumBins(Ms(V), w), w, left /\ w # 0), y |-> CumCounts(Ms(V), Ws(V), w)]
(* the fitted line covers the complete bins and starts at their first count   *)
LineFrom(E, w, mc) == LET b == TLCEval(CumBins(Ms(Valid(E)), w)) IN {i \in 1..Len(b) : 2 * b[i] >= 2 * mc - w}
Border(E, w, mc) == LET b == TLCEval(CumBins(Ms(Valid(E)), w)) IN w # 0 /\ \E i \in 1..Len(b) : 2 * b[i] = 2 * mc - w
LowestMag(E) == MinSeq(Ms(Valid(E)))
------------------------------------------------------------------------------
(* Cumulative count above mc: the weight of the complete events up to t       *)
IsComplete(e, mc, D) == e.m # NaNV /\ 2 * e.m >= 2 * mc - D
CountTo(E, mc, D, t) == SumSeq([i \in 1..Len(E) |-> IF IsComplete(E[i], mc, D) /\ E[i].t <= t THEN E[i].w ELSE 0])
EventTimes(E) == {E[i].t : i \in 1..Len(E)}
CountTotal(E, mc, D) == CountTo(E, mc, D, Max(EventTimes(E)))
(* Height of a line of points (x ascending) that steps at its points          *)
HeightAt(x, y, t) == LET k == {i \in 1..Len(x) : x[i] <= t} IN y[Max(k)]
------------------------------------------------------------------------------
(* Dot sizes: power interpolation between the smallest and the largest size   *)
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
DotSize(m, lo, hi, small, large, p) ==
  IF hi = lo THEN Int2R(IF p = 0 THEN large ELSE small) ELSE RAdd(Int2R(small), RMul(Rat(IPow(m - lo, p), IPow(hi - lo, p)), Int2R(large - small)))
------------------------------------------------------------------------------
(* b-value series: the estimates of all windows of n complete events, each    *)
(* handed over in time order with the largest completeness of the window      *)
Indexed(ev, useX) == IF useX THEN ev ELSE [i \in 1..Len(ev) |-> [ev[i] EXCEPT !.x = i - 1]]
Series(ev, useX, D, n, minnum, P) ==
  LET s == TLCEval(Complete(Ordered(Indexed(ev, useX), useX), D))
  IN [x |-> [i \in 1..Len(s) |-> s[i].x],
      v |-> [k \in 1..(Len(s) - n + 1) |-> LET g == SubSeq(s, k, k + n - 1)  o == InTime(g)  r == Scripted(Mags(o), GroupMc(g), D, P)
                                          IN IF r.n < minnum THEN [v |-> NaNV, n |-> r.n] ELSE r]]
PlaceAt(place, n) == CASE place = "left" -> 0 [] place = "midpoint" -> n \div 2 [] place = "right" -> n - 1
(* value shown at position i (from one)                                       *)
ShownAt(S, place, n, i) == LET k == i - PlaceAt(place, n) IN IF k \in 1..Len(S.v) THEN S.v[k] ELSE [v |-> NaNV, n |-> 0]
=============================================================================
