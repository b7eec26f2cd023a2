---------------------------- MODULE TraceOptions ----------------------------
(* Conformance of recorded histories of setting the option and calling.       *)
EXTENDS Options, TraceCommon
VARIABLES sid, l, opt, res
vars == <<sid, l, opt, res>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ opt = TRUE /\ res = {}
On(e) == {r \in res : r[1] = e.key /\ r[2]}
Off(e) == {r \in res : r[1] = e.key /\ ~r[2]}
Ids(S) == {r[4] : r \in S}
(* a call whose repetition differs under one setting draws random numbers     *)
SameResult(e) == LET mine == {r \in res : r[1] = e.key /\ r[2] = opt}  theirs == {r \in res : r[1] = e.key /\ r[2] # opt} IN
  IF e.random THEN (Cardinality(theirs) >= 2 /\ Cardinality({r[3] : r \in theirs}) = 1) => \A r \in theirs : r[3] = e.res
  ELSE \A r \in theirs : r[3] = e.res
Checks(e) ==
  CASE e.k = "set" -> << <<"unknown options refused", e.key \in Known \/ e.err # "">>, <<"known options accepted", e.key \notin Known \/ e.err = "">> >>
    [] e.k = "get" -> << <<"option keeps the last value", e.value = opt>> >>
    [] e.k = "call" ->
         << <<"silent when off", opt \/ e.warned = 0>>,
            <<"warns in the documented situations", ~opt \/ e.err # "" \/ e.op = "other" \/ e.warned = Cardinality(TLCEval(Warned(e)))>>,
            <<"same result in both settings", SameResult(e)>> >>
    [] OTHER -> <<>>
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ opt' = (IF e.k = "set" /\ e.key \in Known THEN e.to ELSE opt)
       /\ res' = (IF e.k = "call" THEN res \cup {<<e.key, opt, e.res, l>>} ELSE res)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
