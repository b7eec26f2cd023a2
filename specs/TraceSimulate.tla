---------------------------- MODULE TraceSimulate ----------------------------
(* Conformance of recorded simulations and ditherings.                        *)
EXTENDS Simulate, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
SimClauses(e) ==
  IF e.refuse THEN Failing(<< <<"an unknown parametrisation is refused", e.err = "ValueError">> >>)
  ELSE IF e.err # "" THEN {"simulating does not fail"}
  ELSE Failing(<< <<"as many magnitudes as asked for", e.len = e.n>>,
                  <<"finite magnitudes", e.odd = 0>>,
                  <<"within the bounds", InBounds(e.hist, e.top)>>,
                  <<"multiples of the bin width", e.offgrid = 0>>,
                  <<"exponential law", ~e.law \/ e.odd > 0 \/ LawHolds(e.hist, e.n, e.K, e.d, 3)>>,
                  <<"arguments unchanged", e.unchanged>> >>)
DitherClauses(e) ==
  IF e.err # "" THEN {"dithering does not fail"}
  ELSE Failing(<< <<"as many values as given", e.len = Total(e.given)>>,
                  <<"every bin keeps its number of events", {e.hist[i] : i \in 1..Len(e.hist)} = {e.given[i] : i \in 1..Len(e.given)}>>,
                  <<"exponential law within the bins", ~e.law \/ \A j \in 1..(e.K - 1) : Plausible(e.part[j], Total(e.given), Below(j, e.K))>>,
                  <<"not binned any more", e.distinct>>,
                  <<"arguments unchanged", e.unchanged>> >>)
Clauses(e) == CASE e.op = "sim" -> SimClauses(e) [] e.op = "dither" -> DitherClauses(e)
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
