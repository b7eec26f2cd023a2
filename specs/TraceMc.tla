------------------------------ MODULE TraceMc -------------------------------
(* Conformance of recorded completeness estimations with McEstimation.        *)
EXTENDS McEstimation, TraceCommon
VARIABLES sid, l
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1

Wt(e) == IF e.hasw THEN e.w ELSE Ones(e.m)
CountTrue(s) == Cardinality({i \in 1..Len(s) : s[i]})
KsTestClauses(e) ==
  IF e.err # "" THEN {"the test does not fail"}
  ELSE IF Degenerate(e.m, e.q) THEN Failing(<< <<"a degenerate sample never passes", REq(e.p, <<0, 1>>)>> >>)
  ELSE LET d == KsDist(e.m, Wt(e), e.mc, e.q) IN
       Failing(<<
        <<"KS distance", REq(e.d, d)>>,
        <<"p-value is the share of reference distances at least as large",
           IF e.sim THEN REq(e.p, Rat(CountTrue(e.ge), Len(e.ge))) ELSE REq(e.p, PValue(d, e.kd))>>,
        <<"reference distances returned", e.nref = e.nwant>>,
        <<"arguments unchanged", e.kept>> >>)

(* candidate search by KS test                                                *)
KsCands(e) ==
  IF e.isdef THEN [i \in 1..(MaxSeq(e.m) - MinSeq(e.m)) |-> MinSeq(e.m) + i - 1]
  ELSE SortedSet(ToSet(e.cand))
KsQ(e, c) == IF e.method = "given" THEN e.q ELSE QOf(e.method, e.m, e.t, c)
KsP(e, cs, k) ==
  LET a == Above(e.m, cs[k]) q == KsQ(e, cs[k]) IN
  IF Degenerate(a, q) THEN <<0, 1>> ELSE PValue(KsDist(a, Ones(a), cs[k], q), e.kdl[k])
KsD(e, c) ==
  LET a == Above(e.m, c) q == KsQ(e, c) IN
  IF Degenerate(a, q) THEN NAN ELSE KsDist(a, Ones(a), c, q)
KsClauses(e) ==
  IF e.err # "" THEN {"the search does not fail"}
  ELSE
  LET cs == KsCands(e)
      p == [k \in 1..Len(cs) |-> KsP(e, cs, k)]
      ps == Positions(cs, LAMBDA k : RLe(e.thr, p[k]))
      tested == IF e.stop /\ ps # <<>> THEN SubSeq(cs, 1, ps[1]) ELSE cs
      nt == Len(tested)
      best == IF ps = <<>> THEN NONE ELSE cs[ps[1]]
      (* a default list may end with the largest magnitude itself             *)
      tol == e.isdef /\ (~e.stop \/ ps = <<>>) /\ Same(e.tested, Append(cs, MaxSeq(e.m)))
      okv(s) == Len(s) = Len(e.tested)
  IN Failing(<<
      <<"candidates tested, in ascending order", Same(e.tested, tested) \/ tol>>,
      <<"smallest passing candidate", e.best = best>>,
      <<"b-value of the answer", IF best = NONE THEN e.bestb = <<9, 0>> ELSE REq(e.bestb, KsQ(e, best))>>,
      <<"b-values in step with the candidates",
         okv(e.bs) /\ \A k \in 1..Min2(nt, Len(e.bs)) : REq(e.bs[k], KsQ(e, tested[k]))>>,
      <<"distances in step with the candidates",
         okv(e.ds) /\ \A k \in 1..Min2(nt, Len(e.ds)) : LET d == KsD(e, tested[k]) IN d = NAN \/ REq(e.ds[k], d)>>,
      <<"p-values in step with the candidates",
         okv(e.ps) /\ \A k \in 1..Min2(nt, Len(e.ps)) : REq(e.ps[k], p[k])>>,
      <<"arguments unchanged", e.kept>> >>)

(* internal consistency of a search with simulated reference distances        *)
KsSimClauses(e) ==
  IF e.err # "" THEN {"the search does not fail"}
  ELSE LET ps == Positions(e.ps, LAMBDA k : RLe(e.thr, e.ps[k])) IN
  Failing(<<
    <<"lists line up", Len(e.ps) = Len(e.tested) /\ Len(e.ds) = Len(e.tested) /\ Len(e.bs) = Len(e.tested)>>,
    <<"smallest passing candidate", e.best = (IF ps = <<>> THEN NONE ELSE e.tested[ps[1]])>>,
    <<"stops at the first pass", ~e.stop \/ ps = <<>> \/ ps[1] = Len(e.tested)>>,
    <<"candidates tested, in ascending order",
       LET cs == KsCands(e) IN \A k \in 1..Min2(Len(e.tested), Len(cs)) : e.tested[k] = cs[k]>>,
    <<"distances in step with the candidates",
       \A k \in 1..Min2(Len(e.tested), Len(e.ds)) : LET d == KsD(e, e.tested[k]) IN d = NAN \/ REq(e.ds[k], d)>>,
    <<"a degenerate sample never passes",
       \A k \in 1..Min2(Len(e.tested), Len(e.ps)) : Distinct(Above(e.m, e.tested[k])) > 1 \/ REq(e.ps[k], <<0, 1>>)>> >>)

StabClauses(e) ==
  LET cs == StabCands(e.m, e.cand, e.isdef, e.rng) IN
  IF cs = <<>> THEN Failing(<< <<"no testable candidate is an error", e.err # "">> >>)
  ELSE IF e.err # "" THEN {"the search does not fail"}
  ELSE
  LET rs == [k \in 1..Len(cs) |-> RatioSq(e.kind, e.m, cs[k], e.rng)]
      tested == StabTested(cs, rs, e.stop)
      n == Len(tested)
      \* a ratio of exactly one is decided by rounding unless all steps are exact
      vague == (e.kind # "stub" \/ e.rng \notin {1, 2, 4}) /\ \E k \in 1..Len(cs) : rs[k] \in {<<1, 1>>, VAGUE}
      B(c) == IF e.kind = "stub" THEN Rat(StubB8(e.m, c), 8) ELSE UtsuInv(e.m, c)
  IN IF vague THEN {} ELSE Failing(<<
      <<"candidates tested", Same(e.tested, tested)>>,
      <<"answer", e.best \in StabBest(cs, rs, e.stop)>>,
      <<"b-value of the answer", IF e.best = NONE THEN e.bestb = <<9, 0>> ELSE REq(e.bestb, B(e.best))>>,
      <<"b-values in step with the candidates",
         Len(e.bs) = n /\ \A k \in 1..Min2(n, Len(e.bs)) : REq(e.bs[k], B(tested[k]))>>,
      <<"ratios in step with the candidates",
         Len(e.ratios) = n /\ \A k \in 1..Min2(n, Len(e.ratios)) :
            IF rs[k] = NAN THEN e.ratios[k] = -1 \/ e.ratios[k] = -2
            ELSE IF rs[k][1] \div rs[k][2] >= 1000 THEN e.ratios[k] = -2
            ELSE Near6(e.ratios[k], rs[k])>>,
      <<"arguments unchanged", e.kept>> >>)

Clauses(e) == CASE e.op = "kstest" -> KsTestClauses(e)
                [] e.op = "ks" -> KsClauses(e)
                [] e.op = "kssim" -> KsSimClauses(e)
                [] e.op = "stab" -> StabClauses(e)
                [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=============================================================================
