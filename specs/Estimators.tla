----------------------------- MODULE Estimators -----------------------------
(* a- and b-value estimators (C04 - C08).                                     *)
(*                                                                            *)
(* A calculation is a record                                                  *)
(*   [kind, m, mc, D, hasw, w, hast, t, dmc, ...]                             *)
(* m, mc, dmc: magnitudes in units of delta_m / D (D = units per bin, or 0    *)
(* for continuous magnitudes), NaNV marks NaN; w: integer weights with        *)
(* denominator wd; t: integer times (pairwise different).                     *)
(* Results: idx (1-based positions in the input, in the order used), mags,    *)
(* and the value as an exact rational transform (ValueA, ValueB).           *)
EXTENDS Binning

BKinds == {"classic", "utsu", "bpos", "bmore"}
AKinds == {"aclassic", "apos", "amore"}
PairKinds == {"bpos", "bmore", "apos", "amore"}

---------------------------------------------------------------------------
(* the steps of a calculation                                                 *)
IsComplete(c, v) == v # NaNV /\ 2 * v >= 2 * c.mc - c.D
CompleteIdx(c) == Positions(c.m, LAMBDA i : IsComplete(c, c.m[i]))
OrderIdx(c, idx) ==
  IF c.kind \in PairKinds /\ c.hast
  THEN SortSeq(idx, LAMBDA a, b : c.t[a] < c.t[b])
  ELSE idx
Used(c) == TLCEval(OrderIdx(c, CompleteIdx(c)))

Reaches(c, d) == 2 * d >= 2 * c.dmc - c.D
(* pairs <<earlier, later>> as positions within Used(c)                       *)
ConsecutivePairs(c, u) ==
  LET ks == Positions(u, LAMBDA k : k > 1 /\ Reaches(c, c.m[u[k]] - c.m[u[k - 1]]))
  IN [j \in 1..Len(ks) |-> <<ks[j] - 1, ks[j]>>]
NextLarger(c, u, k) ==        \* 0 when there is none
  LET js(a, b) == {j \in a..b : Reaches(c, c.m[u[j]] - c.m[u[k]])}
      near == js(k + 1, IF k + 4 < Len(u) THEN k + 4 ELSE Len(u))      \* looked at first, only for speed
      far == js(k + 5, Len(u))
  IN IF near # {} THEN Min(near) ELSE IF far # {} THEN Min(far) ELSE 0
MorePairs(c, u) ==
  LET nx == TLCEval([k \in 1..Len(u) |-> NextLarger(c, u, k)])
      ks == Positions(u, LAMBDA k : nx[k] # 0)
  IN [j \in 1..Len(ks) |-> <<ks[j], nx[ks[j]]>>]
Pairs(c, u) == IF c.kind \in {"bpos", "apos"} THEN ConsecutivePairs(c, u) ELSE MorePairs(c, u)

(* the sample reported by the estimator                                       *)
ResIdx(c) ==
  LET u == Used(c) IN
  IF c.kind \in PairKinds THEN LET p == Pairs(c, u) IN [j \in 1..Len(p) |-> u[p[j][2]]] ELSE u
ResMags(c) ==
  LET u == Used(c) IN
  IF c.kind \in {"bpos", "bmore"}
  THEN LET p == Pairs(c, u) IN [j \in 1..Len(p) |-> c.m[u[p[j][2]]] - c.m[u[p[j][1]]]]
  ELSE Pick(c.m, ResIdx(c))
ResN(c) == Len(ResIdx(c))
WeightsOf(c) == IF c.hasw THEN Pick(c.w, ResIdx(c)) ELSE [j \in 1..ResN(c) |-> 1]

---------------------------------------------------------------------------
(* b-values: exact transforms                                                 *)
(*  classic family, D > 0 : 10^(b delta)  = 1 + D W / S                       *)
(*  classic family, D = 0 : 1/(b ln10 u)  = S / W                             *)
(*  utsu                  : 1/(b ln10 u)  = S / W + D / 2                     *)
(* with W = sum of weights, S = weighted sum of (magnitude - reference)       *)
RefMag(c) == IF c.kind \in {"bpos", "bmore"} THEN c.dmc ELSE c.mc
WSum(c) == SumSeq(WeightsOf(c))
SSum(c) == LET mm == ResMags(c) ww == WeightsOf(c)
           IN SumSeq([j \in 1..Len(mm) |-> ww[j] * (mm[j] - RefMag(c))])
Undetermined(c) == c.kind \in BKinds /\ c.hasw /\ ResN(c) > 0 /\ WSum(c) = 0    \* only weightless events
ValueB(c) ==
  LET W == WSum(c) S == SSum(c) IN
  IF ResN(c) = 0 \/ W = 0 THEN NAN
  ELSE IF c.kind = "utsu"
       THEN IF 2 * S + c.D * W = 0 THEN <<0, 1>> ELSE Rat(2 * S + c.D * W, 2 * W)
  ELSE IF c.D = 0 THEN Rat(S, W)
  ELSE IF S = 0 THEN INF
  ELSE IF S < 0 THEN NAN
  ELSE Rat(S + c.D * W, S)
(* (std / (ln10 b^2) / u)^2 = weighted population variance / (total weight-1) *)
(* weights are integers over wd                                               *)
StdSq(c) ==
  LET mm == ResMags(c) ww == WeightsOf(c)
      W == SumSeq(ww)
      M == SumSeq([j \in 1..Len(mm) |-> ww[j] * mm[j]])
      Q == SumSeq([j \in 1..Len(mm) |-> ww[j] * mm[j] * mm[j]])
      wd == IF c.hasw THEN c.wd ELSE 1
  IN RDiv(Rat(W * Q - M * M, W * W), Rat(W - wd, wd))
StdDefined(c) == LET ww == WeightsOf(c) IN
  Len(ww) > 0 /\ SumSeq(ww) > (IF c.hasw THEN c.wd ELSE 1)

---------------------------------------------------------------------------
(* a-values: 10^a.  b = log10(2) / (bt units); scaling factor sf = <<n, d>>.  *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1, 1>> ELSE IF k > 0 THEN RMul(<<2, 1>>, Pow2(k - 1)) ELSE RMul(<<1, 2>>, Pow2(k + 1))
TimesUsed(c) == LET u == Used(c) IN Pick(c.t, u)
RawA(c) ==
  LET u == Used(c) n == Len(u) IN
  CASE c.kind = "aclassic" -> IF n = 0 THEN NAN ELSE Int2R(n)
    [] c.kind = "apos" ->
        LET p == Pairs(c, u) IN
        IF n = 0 \/ Len(p) = 0 THEN NAN
        ELSE LET T == c.t[u[n]] - c.t[u[1]]
                 dt == SumSeq([j \in 1..Len(p) |-> c.t[u[p[j][2]]] - c.t[u[p[j][1]]]])
             IN Rat(Len(p) * T, dt)
    [] OTHER ->
        LET p == Pairs(c, u) IN
        IF n = 0 \/ Len(p) = 0 THEN NAN
        ELSE LET T == c.t[u[n]] - c.t[u[1]]
                 wait(k) == LET j == NextLarger(c, u, k)
                            IN c.t[u[IF j = 0 THEN n ELSE j]] - c.t[u[k]]
                 tau == RSumSeq([k \in 1..n |->
                          RMul(Int2R(wait(k)), Pow2(-((c.m[u[k]] + c.dmc - c.mc) \div c.bt)))])
             IN RDiv(Int2R(Len(p) * T), tau)
ValueA(c) ==
  LET a == RawA(c) IN
  IF a[2] = 0 THEN a
  ELSE LET r == IF c.hasref THEN RMul(a, Pow2(-((c.mref - c.mc) \div c.bt))) ELSE a
       IN IF c.hassf THEN RDiv(r, c.sf) ELSE r

---------------------------------------------------------------------------
(* refusals                                                                   *)
NotBinned(c) == c.D > 0 /\ ~AllMultiples(Finite(c.m), c.D)
Refused(c) ==
  \/ c.m # <<>> /\ NotBinned(c)
  \/ c.hasw /\ (Len(c.w) # Len(c.m) \/ \E i \in 1..Len(c.w) : c.w[i] < 0)
  \/ c.kind \in PairKinds /\ c.dmc < 0
  \/ c.kind \in AKinds /\ c.hasref /\ ~c.hasb /\ Len(CompleteIdx(c)) > 0
  \/ c.kind = "amore" /\ ~c.hasb
=============================================================================
