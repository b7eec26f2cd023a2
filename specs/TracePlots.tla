----------------------------- MODULE TracePlots -----------------------------
(* Conformance of what recorded plots show.                                   *)
EXTENDS Plots, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Bag(S) == {<<x, Cardinality({i \in 1..Len(S) : S[i] = x})>> : x \in {S[i] : i \in 1..Len(S)}}
Pairs2(x, y) == [i \in 1..Len(x) |-> <<x[i], y[i]>>]
General(e) == << <<"draws on the given axes", e.axok>>, <<"arguments and data unchanged", e.unchanged>> >>
(* --- distributions                                                          *)
LineMc(e) == IF e.mc = -777 THEN IF e.w = 0 THEN LowestMag(e.E) ELSE BinV(LowestMag(e.E), e.w) ELSE e.mc
Fmd(e) == LET s == TLCEval(IF e.cum THEN CumShown(e.E, e.w, e.left) ELSE FmdShown(e.E, e.w, e.left)) IN
  << <<"shows the counts of the bins", Bag(Pairs2(e.x, e.y)) = Bag(Pairs2(s.x, s.y))>> >> \o
  (IF ~e.cum \/ e.b10 = 0 THEN << <<"no line without a b-value", e.nlines = 0>> >>
   ELSE LET f == TLCEval(LineFrom(e.E, e.w, LineMc(e))) IN
     IF f = {} \/ Border(e.E, e.w, LineMc(e)) \/ s.y[Min(f)] = 0 THEN <<>>
     ELSE << <<"one line", e.nlines = 1>>,
             <<"line covers the complete bins", e.nlines # 1 \/ e.lx = [k \in 1..Cardinality(f) |-> s.x[Min(f) + k - 1]]>>,
             <<"line starts at the complete count", e.nlines # 1 \/ e.ly0 = 1000 * s.y[Min(f)]>>,
             <<"line falls with the b-value", e.nlines # 1 \/ \A k \in 1..Len(e.lx) : Abs(e.llog[k] - e.llog[1] + 50 * e.b10 * (e.lx[k] - e.lx[1])) <= 2>> >>)
(* --- cumulative counts                                                      *)
CumMcs(e) == IF e.mcs = <<>> THEN <<LowestMag(e.E)>> ELSE e.mcs
CountLine(e, ln, mc) ==
  LET tot == CountTotal(e.E, mc, e.D) IN
  /\ ln.post /\ Len(ln.x) = Len(ln.y) /\ Len(ln.x) > 0
  /\ \A i \in 1..(Len(ln.x) - 1) : ln.x[i] <= ln.x[i + 1] /\ ln.y[i] <= ln.y[i + 1]
  /\ ln.x[1] = Min(EventTimes(e.E)) /\ ln.y[1] = 0 /\ ln.x[Len(ln.x)] = Max(EventTimes(e.E))
  /\ ln.y[Len(ln.y)] = (IF e.norm THEN 1000000 ELSE tot)
  /\ \A t \in EventTimes(e.E) : LET h == HeightAt(ln.x, ln.y, t)  c == CountTo(e.E, mc, e.D, t) IN
       IF e.norm THEN Near6(h, Rat(c, tot)) ELSE h = c
CumCount(e) == LET m == SelectSeq(CumMcs(e), LAMBDA c : CountTotal(e.E, c, e.D) > 0) IN
  << <<"one line for every completeness with events", Len(e.lines) = Len(m)>>,
     <<"lines step through the complete events", Len(e.lines) # Len(m) \/ \A k \in 1..Len(m) : CountLine(e, e.lines[k], m[k])>> >>
(* --- magnitudes in time                                                     *)
MagTime(e) ==
  LET V == TLCEval(Valid(e.E))
      lo == LowestMag(e.E)
      hi == MaxSeq(Ms(V))
  IN << <<"every event at its place with its size", Bag(e.pts) = Bag([i \in 1..Len(V) |-> <<V[i].t, V[i].m, DotSize(V[i].m, lo, hi, e.small, e.large, e.p)>>])>>,
        <<"completeness steps", IF e.steps = <<>> THEN e.lines = <<>>
              ELSE /\ Len(e.lines) = 1 /\ e.lines[1].post
                   /\ e.lines[1].x = Append([i \in 1..Len(e.steps) |-> e.steps[i][1]], Max(EventTimes(e.E)))
                   /\ e.lines[1].y = Append([i \in 1..Len(e.steps) |-> e.steps[i][2]], e.steps[Len(e.steps)][2])>> >>
(* --- dot sizes                                                              *)
Dots(e) == << <<"sizes interpolate", e.sizes = [i \in 1..Len(e.m) |-> DotSize(e.m[i], MinSeq(e.m), MaxSeq(e.m), e.small, e.large, e.p)]>>,
              <<"magnitudes back from sizes", e.p = 0 \/ e.back = e.m>> >>
(* --- b-value plots: values and symmetric bands of the stated confidence     *)
McB(e) == << <<"one point for every completeness", e.x = e.mcs>>,
             <<"shows the estimates", e.x # e.mcs \/ \A i \in 1..Len(e.mcs) : e.y[i] = (LET r == Scripted(e.m, e.mcs[i], e.D, e.P) IN IF r.v = NaNV THEN NaNV ELSE r.v + e.shift)>>,
             <<"symmetric band of the confidence", e.x # e.mcs \/ \A i \in 1..Len(e.mcs) : LET r == Scripted(e.m, e.mcs[i], e.D, e.P) IN
                  r.v = NaNV \/ (e.up[i] = e.down[i] /\ e.up[i] = 1 + (r.n % 3))>> >>
BSeries(e) == LET S == TLCEval(Series(e.events, e.useX, e.D, e.n, e.minnum, e.P)) IN
  << <<"one point for every complete event", e.x = S.x>>,
     <<"shows the estimates of the windows", e.x # S.x \/ \A i \in 1..Len(S.x) : LET r == ShownAt(S, e.place, e.n, i) IN e.y[i] = (IF r.v = NaNV THEN NaNV ELSE r.v + e.shift)>>,
     <<"symmetric band of the confidence", e.x # S.x \/ \A i \in 1..Len(S.x) : LET r == ShownAt(S, e.place, e.n, i) IN
          r.v = NaNV \/ (e.up[i] = e.down[i] /\ e.up[i] = 1 + (r.n % 3))>> >>
(* the analysis of every n is judged by the significance specification        *)
BSig(e) == LET len == Len(Complete(Ordered(e.events, e.useX), e.D))
               ok(n) == len >= 15 * n IN
  << <<"one point for every n", e.x = e.ns>>,
     <<"shows the mean autocorrelations", e.x # e.ns \/ \A i \in 1..Len(e.ns) : IF ok(e.ns[i]) THEN e.mac[i] = e.cmac[i] /\ e.mu[i] = e.cmu[i] ELSE e.mac[i] = NaNV>>,
     <<"band of the significance level", e.x # e.ns \/ \A i \in 1..Len(e.ns) : (~ok(e.ns[i]) \/ e.cmu[i] = NaNV) \/ (Abs(e.up[i] - e.cstd[i]) <= 2 /\ Abs(e.down[i] - e.cstd[i]) <= 2)>>,
     <<"significant ones marked", e.red = SelectSeq(e.ns, LAMBDA n : ok(n) /\ LET k == CHOOSE j \in 1..Len(e.ns) : e.ns[j] = n IN e.p6[k] # NaNV /\ e.p6[k] < e.pt6)>> >>
Space(e) == << <<"every event at its place", Bag(e.pts) = Bag(e.want)>>,
               <<"sizes interpolate", e.sizes = [i \in 1..Len(e.m) |-> DotSize(e.m[i], MinSeq(e.m), MaxSeq(e.m), e.small, e.large, e.p)]>>,
               <<"legend names the magnitudes", e.p = 0 \/ Range(e.labels) = Range(e.m)>> >>
Clauses(e) ==
  IF e.err # "" THEN IF e.refuse THEN {} ELSE {"plotting does not fail"}
  ELSE IF e.refuse THEN {"refuses inconsistent arguments"}
  ELSE Failing(General(e) \o
    (CASE e.op = "fmd" -> Fmd(e) [] e.op = "cumcount" -> CumCount(e) [] e.op = "magtime" -> MagTime(e) [] e.op = "dots" -> Dots(e)
       [] e.op = "mcb" -> McB(e) [] e.op = "bseries" -> BSeries(e) [] e.op = "bsig" -> BSig(e) [] e.op = "space" -> Space(e)))
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
