---------------------------- MODULE TraceColumns ----------------------------
(* Conformance of recorded histories of tables that lose and regain columns.  *)
EXTENDS Columns, TraceCommon
VARIABLES sid, l, tabs
vars == <<sid, l, tabs>>
Ev == Sessions[sid].ev
S(q) == Range(q)
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ tabs = <<>>
Checks(e) ==
  CASE e.k = "make" -> << <<"table built with its columns", S(e.cols) = S(e.want)>> >>
    [] e.k = "edit" -> << <<"columns edited", S(e.cols) = (IF e.add THEN tabs[e.o].cols \cup {e.col} ELSE tabs[e.o].cols \ {e.col})>> >>
    [] e.k = "call" ->
         LET t == tabs[e.o]  lacks == Missing(t.kind, e.op, t.cols) IN
         << <<"refused when a column is missing", lacks = {} \/ e.err = "AttributeError">>,
            <<"runs when the columns are there", lacks # {} \/ e.err = "">>,
            <<"missing columns named", lacks = {} \/ e.err = "" \/ S(e.named) = lacks>>,
            <<"a refused call changes nothing", e.err = "" \/ (e.same /\ e.figures = 0)>>,
            <<"other tables untouched", e.others>>,
            <<"columns after the call", S(e.cols) = (IF lacks # {} \/ e.err # "" THEN t.cols ELSE After(t.kind, e.op, t.cols))>> >>
    [] OTHER -> <<>>
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ tabs' = (IF e.k = "make" THEN Append(tabs, [kind |-> e.kind, cols |-> S(e.cols)]) ELSE [tabs EXCEPT ![e.o].cols = S(e.cols)])
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
