-------------------------- MODULE TraceIncomplete ---------------------------
(* Conformance of recorded filterings.  An event is one call on the catalogue *)
(* of the session or, again = TRUE, on what the previous call returned.       *)
EXTENDS Incomplete, TraceCommon
VARIABLES sid, l, prev
vars == <<sid, l, prev>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ prev = [some |-> FALSE]
Exact(e) ==
  LET q == TLCEval(Kept(e.m, e.t, e.w)) IN
  << <<"exactly the unmasked events", e.gm = Pick(e.m, q)>>,
     <<"with their times, in order", e.gt = Pick(e.t, q)>>,
     <<"mask marks the kept events", e.mask = <<>> \/ e.mask[1] = Mask(e.m, e.t, e.w)>> >>
Checks(e) ==
  << <<"filter succeeds", e.err = "">>, <<"inputs unchanged", e.same>> >> \o
  (IF e.err # "" THEN <<>> ELSE
   Exact(e) \o
   << <<"mask returned only on request", (e.mask # <<>>) = e.asked>>,
      <<"filtering again changes nothing", ~(prev.some /\ e.again /\ e.w <= prev.w) \/ (e.gm = e.m /\ e.gt = e.t)>>,
      <<"a larger window keeps no more", ~(prev.some /\ ~e.again) \/ (IF e.w >= prev.w THEN Len(e.gm) <= prev.n ELSE Len(e.gm) >= prev.n)>> >>)
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ prev' = (IF e.err = "" THEN [some |-> TRUE, w |-> e.w, n |-> Len(e.gm)] ELSE [some |-> FALSE])
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
