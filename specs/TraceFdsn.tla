----------------------------- MODULE TraceFdsn ------------------------------
(* Conformance of recorded downloads with Fdsn.tla.  An event is one call of  *)
(* get_events against a loopback server which logged every request.           *)
EXTENDS Fdsn, TraceCommon
VARIABLES sid, l
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Log(e) == e.log                                   \* <<limit, offset, answered>>, 0 = not given
(* pages of data; probes ask for one event                                    *)
Pages(e) == SelectSeq(e.log, LAMBDA r : r[1] = e.bs)
CallClauses(e) ==
  LET P == Params(e.args, e.delta)
      sent == \A i \in 1..Len(e.params) : {<<e.params[i][k][1], e.params[i][k][2]>> : k \in 1..Len(e.params[i])} = P
  IN IF e.fault
     THEN Failing(<< <<"a failed request makes the call fail or changes nothing", e.err # "" \/ Same(e.out, Everything(e.n))>>,
                     <<"request parameters reflect the call", sent>> >>)
     ELSE IF e.err # "" THEN {"the download does not fail"}
     ELSE Failing(<<
       <<"every event once, in server order", Same(e.out, Everything(e.n))>>,
       <<"request parameters reflect the call", sent>>,
       <<"the catalog carries the requested period",
         \A k \in 1..Len(e.args) : /\ e.args[k][1] = "start_time" => e.period[1] = e.args[k][2]
                                   /\ e.args[k][1] = "end_time" => e.period[2] = e.args[k][2]>>,
       <<"unbatched download is one request", e.bs > 0 \/ (Len(e.log) = 1 /\ e.log[1][1] = 0 /\ e.log[1][2] = 0)>>,
       <<"few probing requests", e.bs = 0 \/ Len(e.log) <= PageCount(e.n, e.bs) + 2 * ProbeBound(e.n, e.bs)>>,
       <<"no empty page", e.bs <= 1 \/ \A i \in 1..Len(Pages(e)) : Page(e.n, e.bs, Pages(e)[i][2]) # <<>> \/ (e.n = 0 /\ Pages(e)[i][2] = 1)>>,
       <<"no overlapping pages", e.bs <= 1 \/ \A i, j \in 1..Len(Pages(e)) : i < j => Abs(Pages(e)[i][2] - Pages(e)[j][2]) >= e.bs>> >>)
Clauses(e) == CASE e.op = "get" -> CallClauses(e) [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=============================================================================
