---------------------------- MODULE KsReference ------------------------------
(* The reference distribution of the Kolmogorov-Smirnov test: distances of    *)
(* samples of the binned Gutenberg-Richter law with 10^(b delta_m) = a/b.     *)
(* Events are bins 0, 1, ... above the completeness; bin K stands for         *)
(* "K or above" (the tail).  A sample carries integer weights, one per event. *)
(* Distances are integers in units of 1 / (W a^K), masses in units of         *)
(* 1 / a^(K n), so that both are exact.                                       *)
EXTENDS Common
Pow(x, k) == IF k = 0 THEN 1 ELSE x ^ k
Mass1(a, b, K, k) == IF k = K THEN Pow(b, K) ELSE (a - b) * Pow(b, k) * Pow(a, K - k - 1)
(* a^K times the share of the law up to bin k                                 *)
Law(a, b, K, k) == Pow(a, K) - Pow(b, k + 1) * Pow(a, K - k - 1)
Upto(v, w, k) == SumSeq([i \in 1..Len(v) |-> IF v[i] <= k THEN w[i] ELSE 0])
Gap(a, b, K, v, w, k) == Abs(Upto(v, w, k) * Pow(a, K) - SumSeq(w) * Law(a, b, K, k))
(* the largest gap below the tail; beyond the largest event gaps only shrink  *)
Dist(a, b, K, v, w) == Max({Gap(a, b, K, v, w, k) : k \in 0..K - 1})
MassOf(a, b, K, v) == FoldLeft(LAMBDA x, y : x * y, 1, [i \in 1..Len(v) |-> Mass1(a, b, K, v[i])])
(* samples without an event in the tail, as a table of <<distance, mass>>     *)
Table(a, b, K, w) == [v \in [1..Len(w) -> 0..K - 1] |-> <<Dist(a, b, K, v, w), MassOf(a, b, K, v)>>]
Distances(t) == {t[v][1] : v \in DOMAIN t}
MassIf(t, P(_)) == FoldSet(LAMBDA v, acc : IF P(t[v][1]) THEN acc + t[v][2] ELSE acc, 0, DOMAIN t)
MassAt(t, d) == MassIf(t, LAMBDA x : x = d)
MassFrom(t, d) == MassIf(t, LAMBDA x : x >= d)
Total(a, K, n) == Pow(a, K * n)
TailMass(a, b, K, n) == Total(a, K, n) - Pow(Pow(a, K) - Pow(b, K), n)
(* c / t in 1e-4                                                              *)
Share(c, t) == IF t < 200000 THEN (c * 10000) \div t ELSE c \div (t \div 10000)
(* o of n draws agree with a probability between lo and hi (in 1e-4)          *)
Expect(n, p) == (n * p) \div 10000
Within(o, n, lo, hi) == LET e == Expect(n, lo)
                            f == Expect(n, hi) + 1
                        IN /\ (o < e => (e - o) * (e - o) <= 49 * (e + 1))
                           /\ (o > f => (o - f) * (o - f) <= 49 * (f + 1))
=============================================================================
