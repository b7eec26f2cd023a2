--------------------------- MODULE TraceRefusals ----------------------------
(* Conformance of recorded calls with arguments that fit or do not fit.       *)
EXTENDS Refusals, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Clauses(e) == LET u == TLCEval(Unfit(e)) IN Failing(<<
   <<"arguments that do not fit are refused", u = {} \/ e.err # "">>,
   <<"fitting arguments are accepted", u # {} \/ e.err = "">>,
   <<"arguments unchanged", e.unchanged>>,
   <<"the object works as a fresh one afterwards", e.later>> >>)
TraceNext == l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
