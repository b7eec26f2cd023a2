------------------------------ MODULE RateGrid ------------------------------
(* Rate grids: rows of cells, optionally indexed by period and cell id.       *)
(* A row is [cell, s, e, id, data]: cell stands for its six bounds (unbounded *)
(* sides included), s and e for its period in the index, id for its cell id,  *)
(* data for the row's values.  mode tells which index a grid has.             *)
EXTENDS Common
Unset == -9                                    \* an attribute without a value
NoLevel == -8                                  \* the index has no such level
Absent == -7                                   \* the object has no such attribute
Standard == {"longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max", "a", "b", "mc"}
Attrs == {"name", "starttime", "endtime", "n_grids"}
Owns(kind) == CASE kind = "plain" -> {} [] kind = "grid" -> Attrs \ {"n_grids"} [] kind = "forecast" -> Attrs
KindOf(cols) == IF ~(Standard \subseteq cols) THEN "plain" ELSE IF "grid_id" \in cols THEN "forecast" ELSE "grid"
StandardOf(kind) == IF kind = "forecast" THEN Standard \cup {"grid_id"} ELSE Standard
Carry(kind, srckind, attrs) ==
  [a \in Attrs |-> IF a \notin Owns(kind) THEN Absent ELSE IF a \in Owns(srckind) THEN attrs[a] ELSE Unset]
Stripped(kind, cols) == SelectSeq(cols, LAMBDA c : c \in StandardOf(kind))

(* cell ids identify cells                                                    *)
IdsAreCells(rows) == \A i, j \in 1..Len(rows) : (rows[i].id = rows[j].id) <=> (rows[i].cell = rows[j].cell)
NoIds(rows) == [i \in 1..Len(rows) |-> [cell |-> rows[i].cell, s |-> rows[i].s, e |-> rows[i].e, data |-> rows[i].data]]

(* adding a time index from the attributes                                    *)
IndexRefused(g, withend) == g.attrs["starttime"] = Unset \/ (withend /\ g.attrs["endtime"] = Unset)
IndexedRows(g, withend) ==
  [i \in 1..Len(g.rows) |-> [cell |-> g.rows[i].cell, s |-> g.attrs["starttime"],
                             e |-> IF withend THEN g.attrs["endtime"] ELSE NoLevel, data |-> g.rows[i].data]]

(* concatenation of a sequence of grids                                       *)
ConcatRefused(gs) == \/ \E i, j \in 1..Len(gs) : gs[i].mode # gs[j].mode
                     \/ gs[1].mode = "none" /\ \E i \in 1..Len(gs) : gs[i].attrs["starttime"] = Unset
ConcatMode(gs) == IF gs[1].mode # "none" THEN gs[1].mode
                  ELSE IF \A i \in 1..Len(gs) : gs[i].attrs["endtime"] # Unset THEN "period" ELSE "start"
ConcatRows(gs) == FlattenSeq([i \in 1..Len(gs) |->
                    IF gs[i].mode = "none" THEN IndexedRows(gs[i], ConcatMode(gs) = "period") ELSE NoIds(gs[i].rows)])
SpanStart(rows) == Min({rows[i].s : i \in 1..Len(rows)})
KnownEnds(gs) == {gs[i].attrs["endtime"] : i \in 1..Len(gs)} \ {Unset}
(* the set of acceptable ends: unrestricted when no end is known              *)
SpanEndOk(end, gs, rows) ==
  IF ConcatMode(gs) = "period" THEN end = Max({rows[i].e : i \in 1..Len(rows)})
  ELSE KnownEnds(gs) = {} \/ end = Max(KnownEnds(gs))

(* statistics: one group per period and cell.  Values are integers or NaNV.   *)
Key(r) == <<r.s, r.e, r.cell>>
Groups(rows) == {Key(rows[i]) : i \in 1..Len(rows)}
Members(rows, k) == Positions(rows, LAMBDA i : Key(rows[i]) = k)
Present(col, idx) == LET p == SelectSeq(idx, LAMBDA i : col[i] # NaNV) IN Pick(col, p)
Mean(v) == Rat(SumSeq(v), Len(v))
Median(v) == LET s == SortSeq(v, <) n == Len(v) IN
             IF n % 2 = 1 THEN Rat(s[(n + 1) \div 2], 1) ELSE Rat(s[n \div 2] + s[n \div 2 + 1], 2)
Var(v) == Rat(Len(v) * SumSeq([i \in 1..Len(v) |-> v[i] * v[i]]) - SumSeq(v) * SumSeq(v), Len(v) * (Len(v) - 1))
(* stat of the present values v (NaN when undefined); n is the group size     *)
Stat(f, v, n) ==
  CASE f = "sum" -> Rat(SumSeq(v), 1) [] f = "count" -> Rat(Len(v), 1) [] f = "size" -> Rat(n, 1)
    [] f = "nunique" -> Rat(Cardinality(Range(v)), 1)
    [] OTHER -> IF Len(v) = 0 THEN NAN
                ELSE CASE f = "mean" -> Mean(v) [] f = "min" -> Rat(MinSeq(v), 1) [] f = "max" -> Rat(MaxSeq(v), 1)
                       [] f = "median" -> Median(v) [] f = "first" -> Rat(v[1], 1) [] f = "last" -> Rat(v[Len(v)], 1)
                       [] f = "range" -> Rat(MaxSeq(v) - MinSeq(v), 1)
                       [] f = "var" -> IF Len(v) < 2 THEN NAN ELSE Var(v)
=============================================================================
