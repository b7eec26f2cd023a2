--------------------------- MODULE TraceDecluster ---------------------------
(* Conformance of recorded declustering calls and window functions.           *)
EXTENDS Decluster, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
DeclusterClauses(e) ==
  LET n == Len(e.events)
      win == [i \in 1..n |-> [sp |-> e.win[i].sp, aft |-> e.win[i].aft, fore |-> Portion(e.win[i].aft, e.fs[1], e.fs[2])]]
      D == IF e.geo = "line" THEN LineMatrix(e.events) ELSE e.dist IN
  IF e.missing THEN Failing(<< <<"missing columns are refused", e.err = "ValueError">>, <<"the catalogue is not changed", e.unchanged>> >>)
  ELSE IF e.err # "" THEN {"declustering does not fail"}
  ELSE Failing(<< <<"one flag per event", e.bool /\ Len(e.flags) = n>>,
                  <<"mainshocks are exactly the events heading a group", Len(e.flags) # n \/ {i \in 1..n : e.flags[i] = 1} = Heads(e.events, win, D)>>,
                  <<"the catalogue is not changed", e.unchanged>> >>)
WindowClauses(e) ==
  IF e.err # "" THEN {"window functions do not fail"}
  ELSE Failing(<< <<"one window per magnitude", Len(e.sizes) = Len(e.mags)>>,
                  <<"published window sizes", Len(e.sizes) # Len(e.mags) \/ \A i \in 1..Len(e.mags) : WindowOk(e.cls, e.mags[i], e.sizes[i])>>,
                  <<"distance window independent of the cutoff", Len(e.sizes) # Len(e.mags) \/ \A i \in 1..Len(e.mags) : e.sizes[i].sp = e.capped[i].sp>>,
                  <<"time window capped by the cutoff", Len(e.sizes) # Len(e.mags) \/ \A i \in 1..Len(e.mags) :
                        e.capped[i].ds = IF e.cutoff < 0 THEN e.sizes[i].ds ELSE Min2(e.sizes[i].ds, e.cutoff)>>,
                  <<"the magnitudes are not changed", e.unchanged>> >>)
Clauses(e) == CASE e.op = "decluster" -> DeclusterClauses(e) [] e.op = "window" -> WindowClauses(e)
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
