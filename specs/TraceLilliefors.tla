--------------------------- MODULE TraceLilliefors ---------------------------
(* Conformance of recorded tests.                                             *)
(* State: results seen so far, <<shape, distance, p>>: the p-value depends on *)
(* the shape alone and falls with the distance.                               *)
EXTENDS Lilliefors, TraceCommon
VARIABLES sid, l, known
vars == <<sid, l, known>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ known = {}
Sample(e) == IF e.op = "average" THEN <<>> ELSE IF e.op = "test" THEN [i \in 1..Len(e.m) |-> e.m[i] - e.mc]
             ELSE IF e.pos THEN Differences(e.m, e.mc, e.dmc) ELSE Above(e.m, e.mc)
Exact(e) == e.op # "average" /\ (e.op = "test" \/ e.w = 0)
(* sample in bins: e.m, e.mc, e.dmc are multiples of 1, the bin               *)
(* 80 samples of the exponential law: p is uniform, its average within seven  *)
(* standard deviations of one half                                            *)
Average(e) == << <<"the test does not fail", e.err = "">>, <<"p-values of exponential samples average to one half", e.err # "" \/ e.n < 80 \/ e.p \in 270000..730000>> >>
Checks(e, v, d, sh) ==
  IF e.op = "average" THEN Average(e) ELSE IF (\E i \in 1..Len(v) : v[i] < 0) THEN << <<"magnitudes below the completeness are refused", e.err = "ValueError">> >>
  ELSE << <<"the test does not fail", e.err = "">>, <<"arguments and estimator unchanged", e.same>> >> \o
  (IF e.err # "" THEN <<>> ELSE
  << <<"a probability", e.p \in 0..1000000>> >> \o
  (IF Exact(e) THEN
  << <<"p-value of the distance", Agrees(e.p, Modified(d, Len(v)), Modified(d, Len(v)))>>,
     <<"order, unit and lower bound do not matter", \A k \in known : k[1] = sh => Abs(k[3] - e.p) <= 2>>,
     <<"a larger distance is less probable", \A k \in known : Len(k[1]) = Len(v) => /\ (k[2] > d + 15 => k[3] <= e.p + 2)
                                                                                   /\ (d > k[2] + 15 => e.p <= k[3] + 2)>> >>
  ELSE << <<"p-value within the bounds of any placement in the bins", Agrees(e.p, Modified(LowDistance(v), Len(v)), Modified(HighDistance(v), Len(v)))>> >>))
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l]
         v == TLCEval(Sample(e))
         bad == \E i \in 1..Len(v) : v[i] < 0
         d == TLCEval(IF Exact(e) /\ ~bad THEN Distance(v) ELSE 0)
         sh == TLCEval(IF Exact(e) /\ ~bad THEN Shape(v) ELSE <<>>)
     IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e, v, d, sh))))
       /\ known' = (IF Exact(e) /\ ~bad /\ e.err = "" THEN known \cup {<<sh, d, e.p>>} ELSE known)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
