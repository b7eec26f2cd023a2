--------------------------- MODULE TraceConstruct ---------------------------
(* Conformance of recorded constructions of real catalogues.                  *)
EXTENDS Construct, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Names(cols) == [i \in 1..Len(cols) |-> cols[i].name]
Wrong(e, cols) == {Names(cols)[i] : i \in {j \in 1..Len(cols) : j <= Len(e.rcols) /\ e.rcols[j] = cols[j].name /\ e.res[j] # NormCol(cols[j])}}
ConstructClauses(e) ==
  LET cols == IF e.op = "records" THEN Kept(e.cols, e.unc, e.ids) ELSE e.cols IN
  IF Refused(cols) THEN Failing(<< <<"something that is no time is refused", e.err # "">>, <<"the caller's data are untouched", e.kept>> >>)
  ELSE IF e.err # "" THEN {"construction does not fail"}
  ELSE Failing(<<
    <<"columns kept in order", e.rcols = ResultCols(cols)>>,
    <<"every event kept, in order", e.rows = e.n /\ e.index = e.rindex>>,
    <<"cells of numeric columns", Wrong(e, cols) \cap NumericCols = {}>>,
    <<"cells of the time column", Wrong(e, cols) \cap TimeCols = {}>>,
    <<"cells of type columns", Wrong(e, cols) \cap TextCols = {}>>,
    <<"cells of other columns", Wrong(e, cols) \subseteq (NumericCols \cup TimeCols \cup TextCols)>>,
    <<"numeric columns are numbers", e.numeric>>,
    <<"kind of the result", e.rkind = e.kind>>,
    <<"the caller's data are untouched", e.kept>> >>)
DropClauses(e) ==
  IF e.err # "" THEN {"dropping columns does not fail"}
  ELSE LET cols == Kept(e.cols, e.which # "unc", e.which # "id") IN
       Failing(<< <<"exactly the columns of the kind are dropped", e.rcols = Names(cols)>>,
                  <<"dropping columns keeps the events", e.rows = e.n /\ e.index = e.rindex>>,
                  <<"dropping columns keeps the values", IF Len(e.rcols) # Len(cols) THEN TRUE ELSE \A i \in 1..Len(cols) : e.res[i] = cols[i].cells>>,
                  <<"the catalogue itself keeps its columns", e.kept>> >>)
EmptyClauses(e) ==
  Failing(<< <<"an empty construction does not fail", e.err = "">>,
             <<"an empty construction has the standard columns", e.err # "" \/ e.rcols = (IF Len(e.given) = 0 THEN StandardCols ELSE e.given)>>,
             <<"an empty construction has no events", e.err # "" \/ e.rows = 0>>,
             <<"kind of the result", e.err # "" \/ e.rkind = e.kind>> >>)
Clauses(e) == CASE e.op \in {"table", "records"} -> ConstructClauses(e) [] e.op = "drop" -> DropClauses(e) [] e.op = "empty" -> EmptyClauses(e)
                [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
