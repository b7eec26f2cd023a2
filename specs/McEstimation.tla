---------------------------- MODULE McEstimation ----------------------------
(* Completeness estimation by KS test and by b-value stability (C09, C10).    *)
(* Magnitudes are integers in units of one bin (D = 1) unless stated.         *)
EXTENDS Estimators

NONE == -999998             \* "no magnitude" (harness: None)
Distinct(s) == Cardinality(ToSet(s))
Above(m, mc) == SelectSeq(m, LAMBDA v : v # NaNV /\ v >= mc)

RECURSIVE RPow(_, _)
RPow(r, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(r, RPow(r, k - 1))

(* KS distance of the sample above mc from the binned GR law; q = 10^(b delta)*)
(* is INF for an infinite b-value.  wt: one weight per event.                 *)
Theory(q, j) == IF q = INF THEN <<1, 1>> ELSE RSub(<<1, 1>>, RPow(RInv(q), j + 1))
KsDist(m, wt, mc, q) ==
  LET idx == Positions(m, LAMBDA i : m[i] >= mc)
      J == Max({m[idx[k]] : k \in 1..Len(idx)}) - mc
      total == SumSeq([k \in 1..Len(idx) |-> wt[idx[k]]])
      upto(j) == SumSeq([k \in 1..Len(idx) |-> IF m[idx[k]] <= mc + j THEN wt[idx[k]] ELSE 0])
      gaps == [j \in 1..(J + 1) |-> RAbs(RSub(Rat(upto(j - 1), total), Theory(q, j - 1)))]
  IN FoldLeft(RMax, <<0, 1>>, gaps)
Degenerate(m, q) == Distinct(m) <= 1 \/ q = NAN
(* share of the reference distances kd that are at least d                    *)
PValue(d, kd) == Rat(Cardinality({i \in 1..Len(kd) : RLe(d, kd[i])}), Len(kd))

(* 10^(b delta) of the sample above mc for an estimator kind                  *)
QOf(kind, m, t, mc) ==
  ValueB([kind |-> kind, m |-> m, mc |-> mc, D |-> 1, dmc |-> 1, hasw |-> FALSE, w |-> <<>>, wd |-> 1,
          hast |-> t # <<>>, t |-> t])

---------------------------------------------------------------------------
(* The search as a machine: candidates ascending without repetition, stop at  *)
(* the first pass when asked to.  Pass(c) abstracts the test of one candidate.*)
SortedSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
KsTested(cands, Pass(_), stop) ==
  LET ps == Positions(cands, LAMBDA i : Pass(cands[i]))
  IN IF stop /\ ps # <<>> THEN SubSeq(cands, 1, ps[1]) ELSE cands
KsBest(cands, Pass(_)) ==
  LET ps == Positions(cands, LAMBDA i : Pass(cands[i]))
  IN IF ps = <<>> THEN NONE ELSE cands[ps[1]]

---------------------------------------------------------------------------
(* Stability search: the ratio |mean of b over the range - b| / std.          *)
(* Two estimators: "utsu" (exact in squares) and a scripted one ("stub")      *)
(* whose b and std are simple functions of the sample.                        *)
Steps(rng) == rng
StubB8(m, mc) == LET a == Above(m, mc) IN 8 + ((SumSeq(a) - mc * Len(a) + 3 * Len(a)) % 9)
StubS16(m, mc, steps) == LET a == Above(m, mc) IN
  IF steps % 2 = 1 THEN 2 * ((Len(a) + mc) % 4) + 1 ELSE 2 * ((Len(a) + mc) % 4) + 2
UtsuInv(m, mc) ==          \* 1/(b ln10 delta) = S/n + 1/2
  LET a == Above(m, mc) n == Len(a) S == SumSeq(a) - n * mc IN Rat(2 * S + n, 2 * n)
UtsuVar(m, mc) ==
  LET a == Above(m, mc) n == Len(a) S == SumSeq(a) - n * mc
      Q == SumSeq([i \in 1..n |-> (a[i] - mc) * (a[i] - mc)]) IN Rat(n * Q - S * S, n * n)
VAGUE == <<5, 0>>
(* squared ratio; NAN when the standard deviation is zero or undefined        *)
RatioSq(kind, m, mc, steps) ==
  IF kind = "stub"
  THEN LET b(k) == StubB8(m, mc + k - 1)
           sumb == SumSeq([k \in 1..steps |-> b(k)])
           r == Rat(2 * (sumb - steps * b(1)), steps * StubS16(m, mc, steps))
       IN RMul(r, r)
  ELSE LET x == UtsuInv(m, mc)
           v == UtsuVar(m, mc)
           n == Len(Above(m, mc))
           rel == RSub(RDiv(RSumSeq([k \in 1..steps |-> RDiv(x, UtsuInv(m, mc + k - 1))]), Int2R(steps)), <<1, 1>>)
       IN IF v[1] = 0 /\ n > 1 /\ rel[1] = 0 THEN VAGUE      \* zero over zero
          ELSE IF v[1] = 0 \/ n = 1 THEN NAN
          ELSE RMul(RMul(rel, rel), RDiv(RMul(RMul(x, x), Int2R(n - 1)), v))
StabPass(r) == r[2] # 0 /\ RLe(r, <<1, 1>>)
StabCands(m, cands, isdef, rng) ==
  LET mx == MaxSeq(m) mn == MinSeq(m) IN
  IF isdef THEN [i \in 1..Max2(0, mx - mn - rng + 1) |-> mn + i - 1]
  ELSE SelectSeq(cands, LAMBDA c : c + rng <= mx)
StabTested(cs, ratios, stop) ==
  LET ps == Positions(cs, LAMBDA i : StabPass(ratios[i]))
  IN IF stop /\ ps # <<>> THEN SubSeq(cs, 1, ps[1]) ELSE cs
(* the admissible answers                                                     *)
StabBest(cs, ratios, stop) ==
  LET ps == {i \in 1..Len(cs) : StabPass(ratios[i])} IN
  IF ps = {} THEN {NONE}
  ELSE IF stop THEN {cs[Min(ps)]}
  ELSE {cs[i] : i \in {j \in ps : \A k \in ps : RLe(ratios[j], ratios[k])}}
=============================================================================
