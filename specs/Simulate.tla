------------------------------ MODULE Simulate ------------------------------
(* Simulated and dithered magnitudes.  The exponential law is used through    *)
(* its halving length h (beta = ln 2 / h): the cell k of a magnitude is the   *)
(* number of whole h between the lower bound and it, and has the weight       *)
(* 2^-(k+1).  A maximum K cells above the lower bound truncates the law.      *)
EXTENDS Common
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* probability of lying below cell k; K = 0: no maximum                       *)
Below(k, K) == IF K = 0 THEN Rat(Pow2(k) - 1, Pow2(k))
               ELSE IF k >= K THEN <<1, 1>> ELSE Rat(Pow2(K - k) * (Pow2(k) - 1), Pow2(K) - 1)
CellWeight(k, K) == RSub(Below(k + 1, K), Below(k, K))
(* a bin is d cells wide; the lower bound lies half a bin below the first bin *)
BinOf(cell, d) == cell \div d
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == TLCEval((x + n \div x) \div 2) IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == LET m == TLCEval(n) IN IF m = 0 THEN 0 ELSE ISqrtFrom(m, m)
(* c of N draws with probability p: within seven standard deviations          *)
Plausible(c, N, q) == LET p == TLCEval(q) IN Abs(c * p[2] - N * p[1]) <= 7 * (ISqrt(N * p[1] * (p[2] - p[1])) + 1) + 3 * p[2]
(* histograms are sequences of <<cell, count>>                                *)
Total(h) == SumSeq([i \in 1..Len(h) |-> h[i][2]])
CountBelow(h, k) == SumSeq([i \in 1..Len(h) |-> IF h[i][1] < k THEN h[i][2] ELSE 0])
InBounds(h, K) == \A i \in 1..Len(h) : h[i][1] >= 0 /\ (K = 0 \/ h[i][1] < K)
LawHolds(h, n, K, d, upto) == \A j \in 1..upto : Plausible(CountBelow(h, j), n, Below(d * j, K))
=============================================================================
