------------------------------ MODULE Unequal ------------------------------
(* Catalogues with unequal completeness periods (Kijko-Smit, Weichert).       *)
(*                                                                            *)
(* A completeness table T is a sequence of rows [m, y]: events larger than m  *)
(* are complete from year y on; m ascends, y does not ascend.  Events are     *)
(* [m, y].  Magnitudes are integers in half bins; in Weichert's tables all    *)
(* edges are odd and all magnitudes even.                                     *)
EXTENDS Common
(* --- Kijko-Smit: the table cuts time into intervals, one per row            *)
Interval(T, y) == Cardinality({j \in 1..Len(T) : T[j].y > y}) + 1
KSUses(T, ev) == LET k == Interval(T, ev.y) IN k <= Len(T) /\ ev.m > T[k].m
KSUsed(T, E) == SelectSeq(E, LAMBDA ev : KSUses(T, ev))
Excess(T, ev) == ev.m - T[Interval(T, ev.y)].m
(* mean excess over the completeness magnitude of the own interval = 1 / beta *)
KSMean(T, E) == LET U == TLCEval(KSUsed(T, E)) IN Rat(SumSeq([i \in 1..Len(U) |-> Excess(T, U[i])]), Len(U))
(* years the interval of row k lasts                                          *)
Duration(T, last, k) == (IF k = 1 THEN last ELSE T[k - 1].y) - T[k].y
(* --- Weichert: every magnitude bin has the start year of its row            *)
Row(T, m) == Cardinality({j \in 1..Len(T) : T[j].m < m})
WUses(T, ev) == LET r == Row(T, ev.m) IN r > 0 /\ ev.y >= T[r].y
WUsed(T, E) == SelectSeq(E, LAMBDA ev : WUses(T, ev))
BinIdx(T, m) == (m - 1 - T[1].m) \div 2              \* from zero
BinStart(T, i) == T[Row(T, T[1].m + 2 * i + 1)].y
BinYears(T, last, i) == last - BinStart(T, i)
BinCounts(T, E, nb) == LET U == TLCEval(WUsed(T, E)) IN [i \in 1..nb |-> Cardinality({k \in 1..Len(U) : BinIdx(T, U[k].m) = i - 1})]
(* Score of the likelihood for bin weights w[1..nb] ~ exp(-beta m): observed  *)
(* minus expected sum of bin numbers, times the sum of the weights.  Its sign *)
(* changes from negative to positive as beta grows through the estimate.      *)
Score(T, c, last, w) ==
  LET N == SumSeq(c)
      M == SumSeq([i \in 1..Len(c) |-> (i - 1) * c[i]])
  IN SumSeq([i \in 1..Len(c) |-> (M - N * (i - 1)) * BinYears(T, last, i - 1) * w[i]])
=============================================================================
