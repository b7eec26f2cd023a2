--------------------------- MODULE TraceOpenQuake ---------------------------
(* Conformance of recorded conversions.                                       *)
(*                                                                            *)
(* State: the catalogue as it should be: times (per row) and other columns.   *)
EXTENDS OpenQuake, TraceCommon
VARIABLES sid, l, t, cols
vars == <<sid, l, t, cols>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ t = <<>> /\ cols = <<>>
Kept(c, e) == \A i \in 1..Len(c) : Has(e.cols, c[i].n) /\ SameCells(Col(e.cols, c[i].n), c[i].v)
Checks(e) ==
  CASE e.k = "to" ->
         << <<"conversion succeeds", e.err = "">>, <<"catalogue unchanged", e.same>> >> \o
         (IF e.err # "" THEN <<>> ELSE
         << <<"as many events", e.n = Len(t)>> >> \o
         (IF e.n = 0 THEN <<>> ELSE
         << <<"columns kept", Kept(cols, e)>>,
            <<"date and time fields", SameCells(e.fields, [i \in 1..Len(t) |-> Fields(t[i])])>>,
            <<"identifiers unique", ~Has(cols, "eventID") => (Has(e.cols, "eventID") /\ Len(Col(e.cols, "eventID")) = Len(t) /\ Distinct(Col(e.cols, "eventID")))>>,
            <<"nothing else added", Names(e.cols) \subseteq (Names(cols) \cup TimeFields \cup {"eventID", "time"})>> >>))
    [] e.k = "from" ->
         << <<"conversion succeeds", e.err = "">>, <<"source unchanged", e.same>> >> \o
         (IF e.err # "" THEN <<>> ELSE
         << <<"as many events", e.n = Len(e.src)>> >> \o
         (IF e.n = 0 THEN <<>> ELSE
         << <<"columns kept", Kept(e.given, e)>>,
            <<"times name the fields", SameCells(e.times, [i \in 1..Len(e.src) |-> TimeOf(e.src[i])])>>,
            <<"time fields kept only on request", (Names(e.cols) \cap TimeFields # {}) = e.keep>>,
            <<"time fields kept name the times", e.keep => \E k \in 1..Len(e.kept) : Len(e.kept[k]) = Len(e.times) /\ \A i \in 1..Len(e.times) : IsFields(e.kept[k][i]) /\ TimeOf(e.kept[k][i]) = e.times[i]>>,
            <<"nothing else added", Names(e.cols) \subseteq (Names(e.given) \cup {"time"} \cup (IF e.keep THEN TimeFields ELSE {}))>> >> \o
         (IF ~e.back THEN <<>> ELSE
         << <<"times of the events kept", SameCells(e.times, t)>>, <<"columns of the catalogue kept", Kept(cols, e)>> >>)))
    [] OTHER -> <<>>
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ t' = (IF e.k = "start" THEN e.times ELSE t)
       /\ cols' = (IF e.k = "start" THEN e.cols ELSE cols)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
