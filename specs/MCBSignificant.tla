--------------------------- MODULE MCBSignificant ---------------------------
(* The implementation step by step: sort, filter, then for every offset cut,  *)
(* drop the incomplete ends and estimate; against the declarative groups.     *)
EXTENDS BSignificant
CONSTANTS MaxLen, Magv, Mcs, Ns, D, P
VARIABLES ev, useX, n, off, S, groups, vals, seen
vars == <<ev, useX, n, off, S, groups, vals, seen>>
(* times and x run through fixed permutations so that sorting matters         *)
Tim(k) == (5 * k) % 7
Xs(k) == (3 * k) % 11
Init == /\ \E L \in 1..MaxLen : \E mm \in [1..L -> Magv], cc \in [1..L -> Mcs] : ev = [k \in 1..L |-> [m |-> mm[k], mc |-> cc[k], t |-> Tim(k), x |-> Xs(k)]]
        /\ useX \in BOOLEAN /\ n \in Ns /\ off = 0 /\ groups = <<>> /\ seen = {} /\ vals = <<>>
        /\ S = Complete(Ordered(ev, useX), D)
CutAll(s, k, o) == LET c == TLCEval(Pieces(s, CutIdx(Len(s), k, o)))
                       c1 == IF Len(c[Len(c)]) < k THEN SubSeq(c, 1, Len(c) - 1) ELSE c IN
                   IF c1 # <<>> /\ Len(c1[1]) < k THEN Tail(c1) ELSE c1
Vals(o) == LET h == Handed(S, n, o) IN [k \in 1..Len(h) |-> Scripted(h[k].m, h[k].mc, D, P)]
Step == /\ off < n /\ Len(S) >= 3 * n
        /\ groups' = CutAll(S, n, off)
        /\ seen' = seen \cup {<<off + (k - 1) * n, groups'[k]>> : k \in 1..Len(groups')}
        /\ off' = off + 1 /\ UNCHANGED <<ev, useX, n, S>>
        /\ vals' = Vals(off)
Spec == Init /\ [][Step]_vars
GroupsMatch == off > 0 => /\ Len(groups) = Len(GroupStarts(Len(S), n, off - 1))
                          /\ \A k \in 1..Len(groups) : LET st == GroupStarts(Len(S), n, off - 1)[k] IN groups[k] = SubSeq(S, st + 1, st + n)
(* over all offsets every window of n consecutive events occurs exactly once  *)
EveryWindowOnce == off = n => seen = {<<i, SubSeq(S, i + 1, i + n)>> : i \in 0..(Len(S) - n)}
(* laws of Moran's I: mirror image, sign of two-valued alternation, shift     *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MoranLaws == (off > 0 /\ Len(groups) >= 2) =>
  LET v == TLCEval([k \in 1..Len(groups) |-> vals[k].v])  c == Chain(Len(v)) IN
  /\ REq(Moran(v, c, NAN), Moran(Rev(v), c, NAN))
  /\ REq(Moran(v, c, NAN), Moran([k \in 1..Len(v) |-> IF v[k] = NaNV THEN NaNV ELSE 3 * v[k] + 2], c, NAN))
  /\ Known(v) # {} => REq(Moran(v, c, NAN), Moran(v, c, Rat(SumSeq(SelectSeq(v, LAMBDA x : x # NaNV)), Cardinality(Known(v)))))
  /\ Moran(v, c, NAN)[2] # 0 => RLe(RAbs(Moran(v, c, NAN)), <<Len(v), 1>>)
PairsBound == off > 0 => NPairs(Masked(vals, 2), Chain(Len(vals))) <= Max2(0, Cardinality(Known(Masked(vals, 2))) - 1)
Emit == off = 0 => Case([e |-> [k \in 1..Len(ev) |-> <<ev[k].m, ev[k].mc, ev[k].t, ev[k].x>>], x |-> useX, n |-> n])
=============================================================================
