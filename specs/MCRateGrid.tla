----------------------------- MODULE MCRateGrid -----------------------------
(* Concatenation as the implementation does it - index every grid, join, then *)
(* number the cells by rank of their bounds - followed by a selection of rows *)
(* and by statistics accumulated in one pass over the rows.                   *)
EXTENDS RateGrid
CONSTANTS MaxGrids, MaxRows, Cells, Modes
VARIABLES gs, pc, out, sel, acc, k
vars == <<gs, pc, out, sel, acc, k>>
RowSeqs(m) == UNION {[1..n -> Cells] : n \in 1..MaxRows}
GridOf(num, cells, start, end, m) ==
  [mode |-> m, attrs |-> [starttime |-> start, endtime |-> end],
   rows |-> [i \in 1..Len(cells) |-> [cell |-> cells[i], s |-> IF m = "none" THEN NoLevel ELSE start,
                                     e |-> IF m = "period" THEN end ELSE NoLevel, id |-> i, data |-> 100 * num + i]]]
Grids(num) == {g \in {GridOf(num, c, s, e, m) : c \in RowSeqs(0), s \in {Unset, 1, 2}, e \in {Unset, 2, 3}, m \in Modes} :
                 /\ (g.mode # "none" => g.attrs.starttime # Unset)
                 /\ (g.mode = "period" => g.attrs.endtime # Unset)
                 /\ (g.attrs.starttime = Unset \/ g.attrs.endtime = Unset \/ g.attrs.starttime < g.attrs.endtime)}
Init == gs = <<>> /\ pc = "choose" /\ out = <<>> /\ sel = <<>> /\ acc = <<>> /\ k = 0
Choose == pc = "choose" /\ Len(gs) < MaxGrids /\ \E g \in Grids(Len(gs) + 1) : gs' = Append(gs, g) /\ UNCHANGED <<pc, out, sel, acc, k>>
Start == pc = "choose" /\ Len(gs) > 0 /\ pc' = (IF ConcatRefused(gs) THEN "refused" ELSE "join") /\ UNCHANGED <<gs, out, sel, acc, k>>
WithId(g, withend) == LET r == IF g.mode = "none" THEN IndexedRows(g, withend) ELSE NoIds(g.rows) IN
                      [i \in 1..Len(r) |-> [cell |-> r[i].cell, s |-> r[i].s, e |-> r[i].e, data |-> r[i].data, id |-> 0]]
Join == /\ pc = "join"
        /\ IF k < Len(gs) THEN out' = out \o WithId(gs[k + 1], ConcatMode(gs) = "period") /\ k' = k + 1 /\ pc' = pc
           ELSE pc' = "number" /\ UNCHANGED <<out, k>>
        /\ UNCHANGED <<gs, sel, acc>>
Rank(c) == Cardinality({x \in {out[i].cell : i \in 1..Len(out)} : x < c})
Number == pc = "number" /\ out' = [i \in 1..Len(out) |-> [out[i] EXCEPT !.id = Rank(out[i].cell)]]
          /\ pc' = "numbered" /\ UNCHANGED <<gs, sel, acc, k>>
Select == pc = "numbered" /\ \E drop \in 0..Len(out) : sel' = SelectSeq([i \in 1..Len(out) |-> i], LAMBDA i : i # drop)
          /\ pc' = "stats" /\ k' = 1 /\ UNCHANGED <<gs, out, acc>>
(* one pass: acc is a sequence of <<key, size, sum>> in order of appearance   *)
Accum == /\ pc = "stats"
         /\ IF k > Len(sel) THEN pc' = "done" /\ UNCHANGED <<acc, k>>
            ELSE LET r == out[sel[k]] key == <<r.s, r.e, r.id>> at == Positions(acc, LAMBDA i : acc[i][1] = key) IN
                 /\ acc' = IF at = <<>> THEN Append(acc, <<key, 1, r.data>>) ELSE [acc EXCEPT ![at[1]] = <<key, @[2] + 1, @[3] + r.data>>]
                 /\ k' = k + 1 /\ pc' = pc
         /\ UNCHANGED <<gs, out, sel>>
Next == Choose \/ Start \/ Join \/ Number \/ Select \/ Accum
Spec == Init /\ [][Next]_vars
Selected == Pick(out, sel)
RowsKept == pc \in {"numbered", "stats", "done"} => NoIds(out) = ConcatRows(gs)
IdsIdentify == pc \in {"numbered", "stats", "done"} => IdsAreCells(out)
SelectionKeepsIds == pc \in {"stats", "done"} => IdsAreCells(Selected)
SpanCovers == pc = "numbered" => \A i \in 1..Len(gs) : gs[i].attrs.starttime >= SpanStart(out)
StatsByGroup == pc = "done" =>
  /\ Len(acc) = Cardinality(Groups(Selected))
  /\ \A key \in Groups(Selected) : LET m == Members(Selected, key) IN
       \E a \in Range(acc) : a[2] = Len(m) /\ a[3] = SumSeq([i \in 1..Len(m) |-> Selected[m[i]].data])
  /\ SumSeq([i \in 1..Len(acc) |-> acc[i][2]]) = Len(sel)
Short(g) == <<g.mode, g.attrs.starttime, g.attrs.endtime, [i \in 1..Len(g.rows) |-> g.rows[i].cell]>>
Emit == pc \in {"refused", "join"} /\ k = 0 => Case([i \in 1..Len(gs) |-> Short(gs[i])])
=============================================================================
