-------------------------- MODULE TraceBSignificant --------------------------
(* Conformance of recorded significance calls.                                *)
EXTENDS BSignificant, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
CutClauses(e) ==
  IF e.off >= e.n THEN Failing(<< <<"an offset beyond the group is refused", e.err = "ValueError">> >>)
  ELSE IF e.err # "" THEN {"cutting does not fail"}
  ELSE LET c == CutIdx(Len(e.vals), e.n, e.off) IN
    Failing(<< <<"cut positions", Same(e.idx, c)>>, <<"pieces", Same(e.pieces, Pieces(e.vals, c))>>, <<"arguments unchanged", e.unchanged>> >>)
MoranClauses(e) ==
  IF Len(e.v) < 2 \/ (e.hasw /\ ~MatrixOk(e.w)) THEN Failing(<< <<"unusable values or neighbours are refused", e.err = "ValueError">>, <<"arguments unchanged", e.unchanged>> >>)
  ELSE IF e.err # "" THEN {"Moran's I does not fail"}
  ELSE LET pairs == IF e.hasw THEN Pairs(e.w) ELSE Chain(Len(e.v)) IN
    Failing(<< <<"Moran's I", REq(e.ac, Moran(e.v, pairs, e.mean))>>,
               <<"number of values", e.n = Cardinality(Known(e.v))>>,
               <<"number of neighbouring pairs", e.np = NPairs(e.v, pairs)>>,
               <<"arguments unchanged", e.unchanged>> >>)
TransformClauses(e) ==
  IF e.p > e.q THEN Failing(<< <<"transforming to fewer events is refused", e.err = "ValueError">> >>)
  ELSE IF e.err # "" THEN {"transforming does not fail"}
  ELSE Failing(<< <<"transformed estimate", Len(e.out) = Len(e.be) /\ \A k \in 1..Len(e.be) : REq(e.out[k], Transformed(e.be[k], e.bt, e.p, e.q))>>, <<"arguments unchanged", e.unchanged>> >>)
ValuesClauses(e) ==
  IF e.mismatch THEN Failing(<< <<"lists of different lengths are refused", e.err = "IndexError">> >>)
  ELSE IF e.err # "" THEN {"estimating the groups does not fail"}
  ELSE LET exp == [k \in 1..Len(e.groups) |-> LET g == InTime(e.groups[k]) IN Scripted(Mags(g), e.mcs[k], e.D, e.P)] IN
    Failing(<< <<"one value per group", Len(e.out) = Len(exp)>>,
               <<"values of the groups in time order", Len(e.out) # Len(exp) \/ \A k \in 1..Len(exp) : e.out[k].v = exp[k].v>>,
               <<"number of events of the groups", Len(e.out) # Len(exp) \/ \A k \in 1..Len(exp) : e.out[k].n = exp[k].n>>,
               <<"arguments unchanged", e.unchanged>> >>)
------------------------------------------------------------------------------
(* values of an offset, from the script or from what the estimator reported   *)
(* for exactly this group                                                     *)
Lookup(log, h, timed) == LET ks == {k \in 1..Len(log) : log[k].mc = h.mc /\ Same(log[k].m, h.m) /\ (~timed \/ Same(log[k].t, h.t))} IN
  IF ks = {} THEN [v |-> NaNV, n |-> -1] ELSE LET k == CHOOSE k \in ks : TRUE IN [v |-> log[k].v, n |-> log[k].n]
ValuesOf(e, s, o) == LET h == Handed(s, e.n, o) IN
  [k \in 1..Len(h) |-> IF e.est = "script" THEN Scripted(h[k].m, h[k].mc, e.D, e.P) ELSE Lookup(e.log, h[k], e.timed)]
Clauses0(e, st) ==
  IF ~st.defined THEN Failing(<< <<"too few groups give NaN", e.mac = NaNV /\ e.mu = NAN /\ e.var8 = NaNV /\ e.z4 = NaNV>> >>)
  ELSE LET k == Len(st.morans)  var == Variance(st)  v8 == IF e.conservative THEN Fix8(var) ELSE (Fix8(var) \div 10000) * 6561 + ((Fix8(var) % 10000) * 6561) \div 10000 IN
    Failing(<< <<"mean autocorrelation", IF k = 0 THEN e.mac = NaNV ELSE e.mac # NaNV /\ Abs(k * e.mac - SumSeq([j \in 1..k |-> FixS6(st.morans[j])])) <= 4 * k>>,
               <<"expected autocorrelation", REq(e.mu, st.mu)>>,
               <<"standard deviation", e.var8 # NaNV /\ Abs(e.var8 - v8) <= 20>>,
               <<"p-value", IF k = 0 THEN e.z4 = NaNV ELSE
                            /\ e.z4 # NaNV
                            /\ LET E == e.diff4 * 10000  S == e.std4 IN
                               IF e.z4 >= 49000 THEN E >= 48000 * S ELSE IF e.z4 <= -49000 THEN E <= -48000 * S
                               ELSE Abs(e.z4 * S - E) <= 100000>> >>)
SigClauses(e) ==
  IF e.n < e.minnum \/ e.mismatch # "" THEN Failing(<< <<"inconsistent arguments are refused", e.err = (IF e.mismatch = "times" THEN "IndexError" ELSE "ValueError")>> >>)
  ELSE IF e.err # "" THEN {"the analysis does not fail"}
  ELSE LET s == TLCEval(Complete(Ordered(e.events, e.useX), e.D))
           V(o) == ValuesOf(e, s, o)
           enough == Len(s) >= 3 * e.n
           missed == e.est # "script" /\ enough /\ \E o \in 0..(e.n - 1) : \E k \in 1..Len(V(o)) : V(o)[k].n = -1 IN
       Failing(<< <<"arguments unchanged", e.unchanged>>, <<"every group is estimated on its own events in time order with its largest completeness", ~missed>> >>)
       \cup IF missed THEN {} ELSE Clauses0(e, IF enough THEN Statistic(Len(s), e.n, e.minnum, V) ELSE [defined |-> FALSE])
Clauses(e) == CASE e.op = "cut" -> CutClauses(e) [] e.op = "moran" -> MoranClauses(e) [] e.op = "transform" -> TransformClauses(e)
                [] e.op = "values" -> ValuesClauses(e) [] e.op = "sig" -> SigClauses(e)
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
