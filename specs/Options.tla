------------------------------ MODULE Options -------------------------------
(* The options table and the situations in which the library warns.           *)
(* Magnitudes, completeness and widths are integers in one unit; NaNV marks   *)
(* a missing magnitude.                                                       *)
EXTENDS Common
Known == {"warnings"}
(* --- situations: each stands for one kind of warning                        *)
Vals(m) == SelectSeq(m, LAMBDA x : x # NaNV)
InMc(x, mc, D) == x # NaNV /\ 2 * x >= 2 * mc - D
CompleteOf(m, mc, D) == SelectSeq(m, LAMBDA x : InMc(x, mc, D))
LowestEmpty(m, mc, D) == Vals(m) # <<>> /\ 2 * (MinSeq(Vals(m)) - mc) > D
NoneComplete(m, mc, D) == CompleteOf(m, mc, D) = <<>>
(* m is listed in time order                                                  *)
NoStep(m, mc, D, dmc) == LET c == CompleteOf(m, mc, D) IN c # <<>> /\ \A i \in 1..(Len(c) - 1) : 2 * (c[i + 1] - c[i]) < 2 * dmc - D
NoLarger(m, mc, D, dmc) == LET c == CompleteOf(m, mc, D) IN c # <<>> /\ \A i, j \in 1..Len(c) : i < j => 2 * (c[j] - c[i]) < 2 * dmc - D
(* all values sit on one grid of width D                                      *)
OnGrid(m, D) == LET v == Vals(m) IN \A i \in 1..Len(v) : (v[i] - v[1]) % D = 0
Topics(S) == {s[1] : s \in {x \in S : x[2]}}
Estimator(m, mc, D) == Topics({<<"lowest bin", LowestEmpty(m, mc, D)>>, <<"none complete", NoneComplete(m, mc, D)>>})
KsTest(m, mc, D) == IF m = <<>> THEN {"no sample"} ELSE IF Cardinality(Range(m)) = 1 THEN {"one value"} ELSE Topics({<<"below mc", 2 * MinSeq(m) < 2 * mc - D>>})
Warned(e) ==
  CASE e.op = "b" -> Estimator(e.m, e.mc, e.D)
    [] e.op \in {"b+", "b++"} -> Estimator(e.m, e.mc, e.D) \cup Topics({<<"dmc", e.dmc < e.D>>})
    [] e.op = "a" -> Estimator(e.m, e.mc, e.D)
    [] e.op = "a+" -> Estimator(e.m, e.mc, e.D) \cup Topics({<<"dmc", e.dmc < e.D>>, <<"not enough", NoStep(e.m, e.mc, e.D, e.dmc)>>})
    [] e.op = "a++" -> Estimator(e.m, e.mc, e.D) \cup Topics({<<"dmc", e.dmc < e.D>>, <<"not enough", NoLarger(e.m, e.mc, e.D, e.dmc)>>})
    [] e.op = "kstest" -> KsTest(e.m, e.mc, e.D)
    [] e.op = "ks" -> LET ts == {e.mcs[i] : i \in 1..Len(e.mcs)} IN
         UNION {KsTest(CompleteOf(e.m, c, e.D), c, e.D) \cup (IF e.given THEN {} ELSE Estimator(e.m, c, e.D)) : c \in ts}
         \cup Topics({<<"values off grid", Vals(e.m) # <<>> /\ ~OnGrid(e.m, e.D)>>, <<"candidates off grid", e.mcs # <<>> /\ ~OnGrid(e.mcs, e.D)>>})
    [] e.op = "stab" -> LET ts == {e.mcs[i] : i \in {j \in 1..Len(e.mcs) : e.mcs[j] + e.range <= MaxSeq(Vals(e.m))}} IN
         UNION {Estimator(e.m, c, e.D) \cup Topics({<<"few", Len(CompleteOf(e.m, c, e.D)) < 30>>}) : c \in ts}
         \cup Topics({<<"candidates off grid", ~OnGrid(SetToSeq(ts), e.D)>>})
    [] e.op = "table" -> Topics({<<"below table", \E i \in 1..Len(e.m) : e.m[i] < e.lowest>>})
    [] e.op = "moran" -> Topics({<<"diagonal", e.diag # 0>>})
    [] e.op = "significant" -> LET n == Len(CompleteOf(e.m, e.mc, e.D)) IN IF n < 3 * e.n THEN {"three"} ELSE IF n < 15 * e.n THEN {"fifteen"} ELSE {}
    [] e.op = "sigplot" -> LET n == Len(CompleteOf(e.m, e.mc, e.D)) IN IF \E i \in 1..Len(e.ns) : n < 15 * e.ns[i] THEN {"not enough"} ELSE {}
    [] OTHER -> {}
=============================================================================
