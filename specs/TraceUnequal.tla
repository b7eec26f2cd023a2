---------------------------- MODULE TraceUnequal ----------------------------
(* Conformance of recorded Kijko-Smit and Weichert estimates.  Two estimates  *)
(* of a session with the same table, last year and complete events have the   *)
(* same results (beta, its deviation, rate, a), whatever else differs.        *)
EXTENDS Unequal, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Years(E) == {E[i].y : i \in 1..Len(E)}
LastYear(e) == IF e.last = 0 THEN Max(Years(e.E)) ELSE e.last
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
Bag(S) == LET d == {S[i] : i \in 1..Len(S)} IN {<<x, Cardinality({i \in 1..Len(S) : S[i] = x})>> : x \in d}
Twins(e) == {j \in 1..(l - 1) : /\ Ev[j].op = e.op /\ Ev[j].T = e.T /\ Ev[j].err = "" /\ LastYear(Ev[j]) = LastYear(e) /\ Ev[j].nb = e.nb /\ Ev[j].grp = e.grp
                                /\ Bag(IF e.op = "ks" THEN KSUsed(e.T, Ev[j].E) ELSE WUsed(e.T, Ev[j].E)) = Bag(IF e.op = "ks" THEN KSUsed(e.T, e.E) ELSE WUsed(e.T, e.E))}
Common4(e) == << <<"same complete events, same results", \A j \in Twins(e) : Close(Ev[j].key, e.key)>>,
                 <<"a-value extrapolates the rate to magnitude zero", e.off \in {0, 1}>>,
                 <<"arguments unchanged", e.unchanged>> >>
KS(e) ==
  LET U == TLCEval(KSUsed(e.T, e.E))
      n == Len(U)
      S == SumSeq([j \in 1..Len(e.T) |-> Duration(e.T, LastYear(e), j) * e.pw[e.T[j].m - e.T[1].m + 1]])
  IN IF e.err # "" THEN {"estimating does not fail"}
     ELSE IF n = 0 THEN Failing(<< <<"no estimate without complete events", ~e.finite>> >>)
     ELSE IF ~e.finite THEN {"finite estimate"}
     ELSE Failing(<< <<"mean excess of the complete events", REq(e.inv, KSMean(e.T, e.E))>>,
                     <<"standard deviation by the number of complete events", Abs(e.n1000 - 1000 * n) <= n>>,
                     <<"rate by the durations of the intervals", S = 0 \/ Abs(n * e.yr1000 - S \div 100) <= 2 + n + S \div 200000>> >> \o Common4(e))
Wc(e) ==
  LET U == TLCEval(WUsed(e.T, e.E))
      n == Len(U)
      c == TLCEval(BinCounts(e.T, e.E, e.nb))
      t == TLCEval([i \in 1..e.nb |-> BinYears(e.T, LastYear(e), i - 1)])
      SW == SumSeq(e.pw)
      ST == SumSeq([i \in 1..e.nb |-> t[i] * e.pw[i]])
      p == TLCEval([i \in 1..e.nb |-> (t[i] * e.pw[i] * 10) \div ((ST \div 1000) + 1)])     \* times 10^4
      mean10 == SumSeq([i \in 1..e.nb |-> 10 * (i - 1) * p[i]]) \div Max2(1, SumSeq(p))
      var == SumSeq([i \in 1..e.nb |-> (10 * (i - 1) - mean10) * (10 * (i - 1) - mean10) * p[i]]) \div Max2(1, SumSeq(p) \div 1)   \* times 100
  IN IF e.err # "" THEN {"estimating does not fail"}
     ELSE IF n = 0 THEN Failing(<< <<"no estimate without complete events", ~e.finite>> >>)
     ELSE IF Score(e.T, c, LastYear(e), e.steep) <= 0 \/ Score(e.T, c, LastYear(e), e.flat) >= 0 THEN {}    \* no maximum in the searched range
     ELSE IF ~e.finite THEN {"finite estimate"}
     ELSE Failing(<< <<"maximum of the likelihood of the complete events", Score(e.T, c, LastYear(e), e.lo) <= 0 /\ Score(e.T, c, LastYear(e), e.hi) >= 0>>,
                     <<"rate by the observation years of the bins", Abs(e.yr1000 * n - (ST \div SW) * 1000 - ((ST % SW) * 1000) \div SW) <= n + 2 + (e.yr1000 * n) \div 200>>,
                     <<"deviation of beta", Abs(e.info100 - n * var) <= 2 + 2 * n + (n * var) \div 15>>,
                     <<"deviation of the rate", Abs(e.n1000 - 1000 * n) <= n>> >> \o Common4(e))
Clauses(e) == CASE e.op = "ks" -> KS(e) [] e.op = "w" -> Wc(e)
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
