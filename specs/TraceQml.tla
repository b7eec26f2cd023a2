------------------------------ MODULE TraceQml ------------------------------
(* Conformance of recorded QuakeML imports with QuakeML.tla.                  *)
EXTENDS QuakeML, TraceCommon
VARIABLES sid, l
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
ToPairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
IdOf(s) == LET I == {i \in 1..Len(s) : s[i][1] = "eventID"} IN IF I = {} THEN 0 ELSE s[Min(I)][2]
ParseClauses(e) ==
  IF e.cut THEN Failing(<< <<"a cut off or malformed document is an error", e.err # "">> >>)
  ELSE IF e.err # "" THEN {"parsing does not fail"}
  ELSE IF Len(e.out) # Len(e.doc) THEN {"one record per event element"}
  ELSE Failing(<< <<"document order", \A i \in 1..Len(e.doc) : IdOf(e.out[i]) = e.doc[i].id>> >>)
       \cup UNION {RecordClauses(e.doc[i], e.all, e.quality, ToPairs(e.out[i])) : i \in 1..Len(e.doc)}
Clauses(e) == CASE e.op = "parse" -> ParseClauses(e)
                [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=============================================================================
