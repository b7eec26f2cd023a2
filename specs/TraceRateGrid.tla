---------------------------- MODULE TraceRateGrid ----------------------------
(* Conformance of recorded histories on real rate grids.  obs is the observed *)
(* pool after the previous event.                                             *)
EXTENDS RateGrid, TraceCommon
VARIABLES sid, l, obs
vars == <<sid, l, obs>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ obs = <<>>
Untouched(e, except) == /\ Len(e.after) >= Len(obs)
                        /\ \A o \in 1..Len(obs) : o \in except \/ e.after[o] = obs[o]
Result(e) == e.after[Len(obs) + 1]
FailsOnly(e) == Failing(<< <<"a failed operation changes nothing", Len(e.after) = Len(obs) /\ Untouched(e, {})>> >>)
NewClauses(e) ==
  IF e.err # "" THEN {"construction does not fail"}
  ELSE LET r == Result(e) IN
       Failing(<< <<"attributes given to the constructor", r.attrs = e.attrs>>, <<"kind of a constructed grid", r.kind = e.kind>>,
                  <<"a constructed grid has the given rows", NoIds(r.rows) = NoIds(e.rows)>>,
                  <<"operands unchanged", Untouched(e, {})>> >>)
IndexClauses(e) ==
  LET g == obs[e.src] IN
  IF IndexRefused(g, e.withend) THEN Failing(<< <<"a missing period is refused", e.err # "">> >>) \cup FailsOnly(e)
  ELSE IF e.err # "" THEN {"adding a time index does not fail"}
  ELSE LET r == Result(e) IN
       Failing(<< <<"every row under the period of the grid", NoIds(r.rows) = IndexedRows(g, e.withend)>>,
                  <<"index levels", r.mode = (IF e.withend THEN "period" ELSE "start")>>,
                  <<"cell ids identify the cells", IdsAreCells(r.rows)>>,
                  <<"kind and attributes kept", r.kind = KindOf(Range(g.cols)) /\ r.attrs = Carry(r.kind, g.kind, g.attrs)>>,
                  <<"operands unchanged", Untouched(e, {})>> >>)
ConcatClauses(e) ==
  LET gs == [i \in 1..Len(e.srcs) |-> obs[e.srcs[i]]] IN
  IF ConcatRefused(gs) THEN Failing(<< <<"grids which do not fit are refused", e.err # "">> >>) \cup FailsOnly(e)
  ELSE IF e.err # "" THEN {"concatenating grids does not fail"}
  ELSE LET r == Result(e) rows == ConcatRows(gs) IN
       Failing(<< <<"every row of every grid under its own period", NoIds(r.rows) = rows>>,
                  <<"index levels", r.mode = ConcatMode(gs)>>,
                  <<"cell ids identify the cells", IdsAreCells(r.rows)>>,
                  <<"kind of the concatenation", (\E i \in 1..Len(gs) : gs[i].kind # e.cls) \/ r.kind = e.cls>>,
                  <<"the concatenation starts with the earliest start", r.attrs["starttime"] = SpanStart(rows)>>,
                  <<"the concatenation ends with the latest end", SpanEndOk(r.attrs["endtime"], gs, rows)>>,
                  <<"operands unchanged", Untouched(e, {})>> >>)
PdConcatClauses(e) ==
  LET gs == [i \in 1..Len(e.srcs) |-> obs[e.srcs[i]]] IN
  IF e.err # "" THEN {"concatenating grids does not fail"}
  ELSE LET r == Result(e) IN
       Failing(<< <<"every row of every grid under its own period", NoIds(r.rows) = FlattenSeq([i \in 1..Len(gs) |-> NoIds(gs[i].rows)])>>,
                  <<"cell ids identify the cells", r.mode = "none" \/ IdsAreCells(r.rows)>>,
                  <<"kind and attributes of the first grid", r.kind = KindOf(Range(r.cols)) /\ r.attrs = Carry(r.kind, gs[1].kind, gs[1].attrs)>>,
                  <<"operands unchanged", Untouched(e, {})>> >>)
DeriveClauses(e) ==
  IF e.err # "" THEN Failing(<< <<"the operation fails only if it fails on a plain table", e.perr # "">> >>) \cup FailsOnly(e)
  ELSE LET s == obs[e.src] IN
       IF e.rkind = "other" THEN Failing(<< <<"same values as on a plain table", e.perr # "" \/ e.rdata = e.pdata>>,
                                            <<"operands unchanged", Untouched(e, {})>> >>)
       ELSE LET r == Result(e) k == IF s.kind = "plain" THEN "plain" ELSE KindOf(Range(r.cols)) IN
            Failing(<< <<"kind follows the columns", r.kind = k>>,
                       <<"attributes carried", r.attrs = Carry(r.kind, s.kind, s.attrs)>>,
                       <<"same rows, index and cell ids as on a plain table", e.perr # "" \/ e.rdata = e.pdata>>,
                       <<"operands unchanged", Untouched(e, {})>> >>)
SetClauses(e) ==
  LET r == e.after[e.src] IN
  Failing(<< <<"attribute set", r.attrs = [obs[e.src].attrs EXCEPT ![e.attr] = e.value]>>,
             <<"setting an attribute leaves the data", r.data = obs[e.src].data>>,
             <<"operands unchanged", Untouched(e, {e.src})>> >>)
StripClauses(e) ==
  LET s == obs[e.src] IN
  IF e.err # "" THEN {"stripping a complete grid does not fail"}
  ELSE LET r == e.after[IF e.inplace THEN e.src ELSE Len(obs) + 1] IN
       Failing(<< <<"stripping keeps exactly the standard columns", r.cols = Stripped(s.kind, s.cols)>>,
                  <<"stripping keeps kind and attributes", r.kind = s.kind /\ r.attrs = s.attrs>>,
                  <<"stripping keeps the values", r.data = e.pdata>>,
                  <<"operands unchanged", Untouched(e, IF e.inplace THEN {e.src} ELSE {})>> >>)
(* ---- statistics: e.vals[c] are the values of column c of the source, in row  *)
(* order; e.table the result: rows [cell, s, e, id, vals], e.tcols its columns  *)
Base == {"number_events", "b", "mc", "a", "alpha"}
HasValues(e, c) == \E i \in 1..Len(e.vals[c]) : e.vals[c][i] # NaNV
StatsClauses(e) ==
  LET g == obs[e.src]
      rows == g.rows
      cols == {c \in DOMAIN e.vals : c \in Range(g.cols) /\ HasValues(e, c)}
      suffixes == DOMAIN e.extra IN
  IF e.err # "" THEN {"statistics of a complete forecast do not fail"}
  ELSE Failing(<<
    <<"one result row per period and cell", /\ Len(e.table) = Cardinality(Groups(rows))
                                             /\ {Key(e.table[i]) : i \in 1..Len(e.table)} = Groups(rows)>>,
    <<"cell ids of the statistics", g.mode = "none" \/ \A i \in 1..Len(e.table) : \E j \in 1..Len(rows) :
          rows[j].id = e.table[i].id /\ Key(rows[j]) = Key(e.table[i])>>,
    <<"the columns hold the aggregated values", \A i \in 1..Len(e.table) : \A c \in cols :
        /\ c \in Range(e.tcols)
        /\ LET m == Members(rows, Key(e.table[i])) IN REq(e.table[i].vals[c], Stat(e.agg, Present(e.vals[c], m), Len(m)))>>,
    <<"extra statistics", \A i \in 1..Len(e.table) : \A c \in cols \cap Base : \A s \in suffixes :
        LET m == Members(rows, Key(e.table[i]))
            d == c \o "_" \o s IN
        /\ d \in Range(e.tcols) /\ REq(e.table[i].vals[d], Stat(e.extra[s], Present(e.vals[c], m), Len(m)))>>,
    <<"no statistics of the realisation number", "grid_id" \notin Range(e.tcols)>>,
    <<"operands unchanged", Len(e.after) = Len(obs) /\ Untouched(e, {})>> >>)
Clauses(e) == CASE e.op = "new" -> NewClauses(e) [] e.op = "index" -> IndexClauses(e) [] e.op = "concat" -> ConcatClauses(e)
                [] e.op = "pdconcat" -> PdConcatClauses(e) [] e.op = "derive" -> DeriveClauses(e) [] e.op = "set" -> SetClauses(e)
                [] e.op = "strip" -> StripClauses(e) [] e.op = "stats" -> StatsClauses(e) [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ obs' = Ev[l].after /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
