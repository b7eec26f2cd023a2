----------------------------- MODULE Lilliefors ------------------------------
(* Lilliefors test of a sample for the exponential law with unknown mean.     *)
(* A sample is a sequence of integers k >= 0 (magnitude above the lower bound *)
(* in an arbitrary unit); probabilities and distances are in 1e-4.            *)
EXTENDS Common
ONE == 10000
(* e^-f for f in thousandths, 0 <= f <= 1000                                  *)
ExpFrac(f) == LET r5 == ONE - (f * ONE) \div 6000
                  r4 == ONE - (f * r5) \div 5000
                  r3 == ONE - (f * r4) \div 4000
                  r2 == ONE - (f * r3) \div 3000
                  r1 == ONE - (f * r2) \div 2000
              IN ONE - (f * r1) \div 1000
WHOLE == <<10000, 3679, 1353, 498, 183, 67, 25, 9, 3, 1>>
ExpNeg(q) == IF q >= 10000 THEN 0 ELSE (WHOLE[q \div 1000 + 1] * ExpFrac(q % 1000)) \div ONE
(* distribution function at x for a mean of s/n                               *)
Cdf(x, n, s) == IF s = 0 THEN ONE ELSE LET q == (1000 * x * n) \div s IN ONE - ExpNeg(q)
(* 1000 x n must stay below 2^31: large values are beyond ten means anyway    *)
CdfS(x, n, s) == IF x * n >= 10 * s THEN ONE ELSE Cdf(x, n, s)
Sorted(v) == Pick(v, SortedPerm(v))
Distance(v) ==
  LET w == TLCEval(Sorted(v))
      n == Len(v)
      s == TLCEval(SumSeq(v))
      d == TLCEval([i \in 1..n |-> LET c == CdfS(w[i], n, s) IN Max2((ONE * i) \div n - c, c - (ONE * (i - 1)) \div n)])
  IN MaxSeq(d)
GcdSeq(v) == FoldLeft(GCD, 0, v)
(* what the test depends on: the sample up to order and unit                  *)
Shape(v) == LET g == TLCEval(GcdSeq(v))
                w == TLCEval(Sorted(v))
            IN IF g = 0 THEN w ELSE [i \in 1..Len(v) |-> w[i] \div g]
RECURSIVE RootFrom(_, _)
RootFrom(n, x) == LET y == TLCEval((x + n \div x) \div 2) IN IF y >= x THEN x ELSE RootFrom(n, y)
Root(n) == RootFrom(n, n)
(* modified distance (d - 0.2/n)(sqrt n + 0.26 + 0.5/sqrt n) of Stephens      *)
(* (1974), in 1e-3                                                            *)
Modified(d, n) == LET r == TLCEval(Root(n * 1000000)) IN ((d - 2000 \div n) * (r + 260 + 500000 \div r)) \div ONE
(* <<level, modified distance with that p-value>> in 1e-3                     *)
Levels == << <<700, 600>>, <<500, 700>>, <<250, 850>>, <<150, 926>>, <<100, 990>>, <<50, 1094>>, <<25, 1190>>, <<10, 1308>> >>
SLACK == 120
(* p in 1e-6 agrees with a modified distance between lo and hi                *)
Agrees(p, lo, hi) == \A i \in 1..Len(Levels) : /\ (hi <= Levels[i][2] - SLACK => p >= 1000 * Levels[i][1])
                                               /\ (lo >= Levels[i][2] + SLACK => p <= 1000 * Levels[i][1])
(* -------------------------------------------- binned samples               *)
(* k is the bin; the true value lies anywhere in k..k+1                       *)
LowDistance(v) ==
  LET n == Len(v)
      s == TLCEval(SumSeq(v))
      d == TLCEval([b \in 1..(MaxSeq(v) + 1) |-> LET c == (ONE * Cardinality({i \in 1..n : v[i] < b})) \div n
                                                   a == CdfS(b, n, s + n)
                                                   z == CdfS(b, n, s)
                                               IN IF c < a THEN a - c ELSE IF c > z THEN c - z ELSE 0])
  IN MaxSeq(d)
HighDistance(v) ==
  LET n == Len(v)
      s == TLCEval(SumSeq(v))
      d == TLCEval([b \in 1..(MaxSeq(v) + 1) |-> LET c == (ONE * Cardinality({i \in 1..n : v[i] < b})) \div n
                                                   c0 == (ONE * Cardinality({i \in 1..n : v[i] < b - 1})) \div n
                                                   a == CdfS(b - 1, n, s + n)
                                                   z == CdfS(b, n, s)
                                               IN Max2(c - a, z - c0)])
  IN MaxSeq(d)
(* -------------------------------------------- magnitudes                    *)
(* those not below the lower bound, measured from it                          *)
Above(m, mc) == LET q == SelectSeq(m, LAMBDA x : x >= mc) IN [i \in 1..Len(q) |-> q[i] - mc]
(* positive differences of successive magnitudes not below mc, at least dmc   *)
Differences(m, mc, dmc) ==
  LET q == SelectSeq(m, LAMBDA x : x >= mc)
      d == [i \in 1..(Len(q) - 1) |-> q[i + 1] - q[i] - dmc]
  IN SelectSeq(d, LAMBDA x : x >= 0)
=============================================================================
