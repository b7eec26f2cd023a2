---------------------------- MODULE BSignificant ----------------------------
(* Significance of b-value variations along one dimension.  An event is       *)
(* [m, mc, t, x] in integer units (m may be NaN); D is the bin width.         *)
EXTENDS Common
------------------------------------------------------------------------------
(* Partition                                                                  *)
Ordered(ev, useX) == IF useX THEN Pick(ev, SortedPerm([i \in 1..Len(ev) |-> ev[i].x])) ELSE ev
Complete(ev, D) == SelectSeq(ev, LAMBDA e : e.m # NaNV /\ 2 * e.m >= 2 * e.mc - D)
(* number of events before each complete group of n, starting at offset off   *)
GroupStarts(len, n, off) == IF len < off THEN <<>> ELSE [k \in 1..((len - off) \div n) |-> off + (k - 1) * n]
(* cutting a series: positions offset, offset + n, ... inside the series, zero excluded *)
CutIdx(len, n, off) == SelectSeq([k \in 1..(len \div n + 1) |-> off + (k - 1) * n], LAMBDA i : 0 < i /\ i < len)
Pieces(s, cuts) == [k \in 1..(Len(cuts) + 1) |-> SubSeq(s, (IF k = 1 THEN 0 ELSE cuts[k - 1]) + 1, IF k > Len(cuts) THEN Len(s) ELSE cuts[k])]
InTime(g) == Pick(g, SortedPerm([i \in 1..Len(g) |-> g[i].t]))
GroupMc(g) == MaxSeq([i \in 1..Len(g) |-> g[i].mc])
Mags(g) == [i \in 1..Len(g) |-> g[i].m]
Times(g) == [i \in 1..Len(g) |-> g[i].t]
(* what each group hands to the estimator: events in time order and their largest completeness *)
Handed(s, n, off) == LET st == GroupStarts(Len(s), n, off) IN
  TLCEval([k \in 1..Len(st) |-> LET g == SubSeq(s, st[k] + 1, st[k] + n)  o == InTime(g) IN [m |-> Mags(o), t |-> Times(o), mc |-> GroupMc(g)]])
------------------------------------------------------------------------------
(* A scripted estimator whose value depends on the order, the magnitudes and  *)
(* the completeness it is given                                               *)
Usable(m, mc, D) == SelectSeq(m, LAMBDA v : v # NaNV /\ 2 * v >= 2 * mc - D)
Scripted(m, mc, D, P) == LET u == Usable(m, mc, D) IN
  [v |-> IF Len(u) = 0 THEN NaNV ELSE (SumSeq([k \in 1..Len(u) |-> k * u[k]]) + 3 * mc) % P, n |-> Len(u)]
------------------------------------------------------------------------------
(* Moran's I of values (integers or NaN) over a set of neighbour pairs        *)
Known(v) == {i \in 1..Len(v) : v[i] # NaNV}
Chain(k) == {<<i, i + 1>> : i \in 1..(k - 1)}
Deviation(v, mean) == LET ok == Known(v)  S == SumSeq(SelectSeq(v, LAMBDA x : x # NaNV)) IN
  [i \in 1..Len(v) |-> IF i \notin ok THEN 0 ELSE IF mean[2] = 0 THEN Cardinality(ok) * v[i] - S ELSE v[i] * mean[2] - mean[1]]
NPairs(v, pairs) == Cardinality({q \in pairs : q[1] \in Known(v) /\ q[2] \in Known(v)})
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
(* mean = NAN: the mean of the known values                                   *)
Moran(v, pairs, mean) ==
  LET d == TLCEval(Deviation(v, mean))
      num == SumOver({q \in pairs : q[1] \in Known(v) /\ q[2] \in Known(v)}, LAMBDA q : d[q[1]] * d[q[2]])
      den == SumSeq([i \in 1..Len(v) |-> d[i] * d[i]])
      np == NPairs(v, pairs)
      n == Cardinality(Known(v)) IN
  IF np = 0 \/ den = 0 THEN NAN
  ELSE RMul(Rat(n - 1, np), Rat(num, den))
(* A neighbour matrix (0/1, square, triangular or symmetric; the diagonal is ignored) gives the pairs *)
Entry(w, i, j) == IF i = j THEN 0 ELSE w[i][j]
Square(w) == \A i \in 1..Len(w) : Len(w[i]) = Len(w)
Upper(w) == {q \in (1..Len(w)) \X (1..Len(w)) : q[1] < q[2] /\ Entry(w, q[1], q[2]) # 0}
Lower(w) == {q \in (1..Len(w)) \X (1..Len(w)) : q[1] < q[2] /\ Entry(w, q[2], q[1]) # 0}
MatrixOk(w) == /\ Square(w) /\ \A i, j \in 1..Len(w) : Entry(w, i, j) \in {0, 1}
               /\ Upper(w) = {} \/ Lower(w) = {} \/ Upper(w) = Lower(w)
Pairs(w) == {q \in (1..Len(w)) \X (1..Len(w)) : q[1] < q[2] /\ (Entry(w, q[1], q[2]) # 0 \/ Entry(w, q[2], q[1]) # 0)}
------------------------------------------------------------------------------
(* The statistic.  vals is a sequence of [v, n]; groups with fewer than       *)
(* minnum usable events do not count, offsets with fewer than three valid     *)
(* groups do not either.                                                      *)
Masked(vals, minnum) == [k \in 1..Len(vals) |-> IF vals[k].n < minnum THEN NaNV ELSE vals[k].v]
Enough(vals, minnum) == Cardinality({k \in 1..Len(vals) : vals[k].n >= minnum}) >= 3
(* Vals(off) are the values of an offset                                      *)
Statistic(len, n, minnum, Vals(_)) ==
  LET offs == TLCEval([k \in 1..n |-> Vals(k - 1)])
      used == SelectSeq(offs, LAMBDA v : Enough(v, minnum))
      mv == TLCEval([k \in 1..Len(used) |-> Masked(used[k], minnum)])
      a == SumSeq([k \in 1..Len(mv) |-> NPairs(mv[k], Chain(Len(mv[k])))])
      nn == SumSeq([k \in 1..Len(mv) |-> Cardinality(Known(mv[k]))])
      ms == SelectSeq([k \in 1..Len(mv) |-> Moran(mv[k], Chain(Len(mv[k])), NAN)], LAMBDA r : r[2] # 0) IN
  IF len < 3 * n \/ a <= 2 * Len(used) THEN [defined |-> FALSE]
  ELSE [defined |-> TRUE, morans |-> ms, mu |-> Rat(-Len(used), nn), a |-> a, b |-> Len(used)]
(* variance of the autocorrelation without variation, (M-2)^2 / M^3 for M mean neighbouring pairs *)
Variance(st) == Rat((st.a - 2 * st.b) * (st.a - 2 * st.b) * st.b, st.a * st.a * st.a)
FixS6(r) == IF r[1] < 0 THEN -Fix6(<<-r[1], r[2]>>) ELSE Fix6(r)
Fix8(r) == FixDigits(r[1] \div r[2], r[1] % r[2], r[2], 8)
------------------------------------------------------------------------------
(* Transforming an estimate from n1 to n2 events, n1 = p^2 k, n2 = q^2 k:      *)
(* the relative deviation of the reciprocal shrinks by p/q                     *)
Transformed(be, bt, p, q) == LET shrink == RMul(Rat(p, q), RSub(<<1, 1>>, RDiv(bt, be)))  den == RSub(<<1, 1>>, shrink) IN
  IF den[1] = 0 THEN INF ELSE RDiv(bt, den)
=============================================================================
