---------------------------- MODULE TraceCommon ----------------------------
(* Trace validation frame.  A session is a recorded history of calls on the   *)
(* real code; every event carries the call, its arguments and what was        *)
(* observed.  The trace specification of a component consumes one event per   *)
(* step, applying the component's own transition to its state and reporting   *)
(* the set of clauses the observation violates.  The verdict is total: a      *)
(* failing event is reported by name and the rest of the trace still runs.    *)
EXTENDS Common, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
Report(sid, l, c) ==
  IF c = {} THEN TRUE
  ELSE PrintT("@@BAD " \o ToJson([sid |-> sid, l |-> l, c |-> c]))
(* Clauses(<<name, holds>>, ...) -> names that do not hold                    *)
Failing(checks) == {checks[i][1] : i \in {j \in 1..Len(checks) : ~checks[j][2]}}
=============================================================================
