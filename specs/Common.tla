------------------------------- MODULE Common -------------------------------
(* Shared value domain of the SeismoStats specification.                      *)
(*                                                                            *)
(* Magnitudes, times and positions are integers in a stated unit; results are *)
(* rationals <<num, den>> with den > 0.  NaN, +inf and -inf are <<0,0>>,      *)
(* <<1,0>>, <<-1,0>>; any observed float that is not a small rational is      *)
(* projected to <<7,0>> by the harness, which equals no expected value.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt, FiniteSetsExt, Json

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

NAN == <<0, 0>>
INF == <<1, 0>>
NINF == <<-1, 0>>
NaNV == -1000000            \* NaN among integer valued magnitudes
                            \* (harness: NOTINT - 1)
Norm(r) == IF r[2] = 0 THEN r
           ELSE LET g == GCD(Abs(r[1]), Abs(r[2]))
                    s == IF r[2] < 0 THEN -1 ELSE 1
                IN  IF r[1] = 0 THEN <<0, 1>>
                    ELSE <<s * (r[1] \div g), s * (r[2] \div g)>>
Rat(n, d) == Norm(<<n, d>>)
Int2R(n) == <<n, 1>>
REq(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN a = b ELSE Norm(a) = Norm(b)
RAdd(a, b) == LET g == GCD(a[2], b[2])
                  q == b[2] \div g
              IN Norm(<<a[1] * q + b[1] * (a[2] \div g), a[2] * q>>)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == GCD(Abs(a[1]), b[2])
                  g2 == GCD(Abs(b[1]), a[2])
              IN  IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                  ELSE Norm(<<(a[1] \div g1) * (b[1] \div g2),
                              (a[2] \div g2) * (b[2] \div g1)>>)
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLe(a, b) == RSub(a, b)[1] <= 0
RLt(a, b) == RSub(a, b)[1] < 0
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>
(* floor(r * 10^6) of a rational 0 <= r < 2000 with denominator below 2*10^8   *)
RECURSIVE FixDigits(_, _, _, _)
FixDigits(acc, rem, d, k) == IF k = 0 THEN acc ELSE FixDigits(10 * acc + (10 * rem) \div d, (10 * rem) % d, d, k - 1)
Fix6(r) == FixDigits(r[1] \div r[2], r[1] % r[2], r[2], 6)
(* x is the observed value times 10^6, rounded                                *)
Near6(x, r) == Abs(x - Fix6(r)) <= 2
RSumSeq(s) == FoldLeft(RAdd, <<0, 1>>, s)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SeqMap(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
MaxSeq(s) == FoldLeft(Max2, s[1], s)
MinSeq(s) == FoldLeft(Min2, s[1], s)

(* Positions i of s with P(i), ascending.                                     *)
Positions(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], P)
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]

(* Stable ascending order of keys: a permutation of 1..Len(keys).             *)
SortedPerm(keys) ==
  SortSeq([i \in 1..Len(keys) |-> i],
          LAMBDA a, b : keys[a] < keys[b] \/ (keys[a] = keys[b] /\ a < b))

(* All sequences over S of length lo..hi                                      *)
SeqsBetween(S, lo, hi) == UNION {[1..k -> S] : k \in lo..hi}
Case(rec) == PrintT("@@CASE " \o ToJson(rec))
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
=============================================================================
