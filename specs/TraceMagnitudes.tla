--------------------------- MODULE TraceMagnitudes ---------------------------
(* Conformance of recorded conversions.                                       *)
(* State: the events of a catalogue, <<type, k, den, value>>: a magnitude in  *)
(* the original scale, or (den = 0) an already converted value in 1e-8.       *)
EXTENDS Magnitudes, TraceCommon
VARIABLES sid, l, rows
vars == <<sid, l, rows>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ rows = <<>>
Expected(r) ==
  CASE r.k = NaNV -> [ty |-> IF Kind(r.ty) = "convert" THEN CONVERTED ELSE r.ty, v |-> NaNV]
    [] Kind(r.ty) = "convert" -> [ty |-> CONVERTED, v |-> Edwards(r.k, r.den)]
    [] OTHER -> [ty |-> r.ty, v |-> IF r.den = 0 THEN r.k ELSE IF r.den = 10 THEN 10000000 * r.k ELSE 1000000 * r.k]
After(r) == LET x == Expected(r) IN [ty |-> x.ty, k |-> x.v, den |-> 0]
Near(a, b) == a = b \/ (a # NaNV /\ b # NaNV /\ Abs(a - b) <= 2)
RowOk(r, g) == LET x == Expected(r) IN
  IF Kind(r.ty) = "other" THEN g.none \/ (~g.conv /\ g.ty = r.ty /\ Near(g.v, x.v))
  ELSE ~g.none /\ g.ty = x.ty /\ Near(g.v, x.v)
Checks(e) ==
  CASE e.op = "start" -> <<>>
    [] e.op = "convert" ->
       << <<"conversion succeeds", e.err = "">>,
          <<"arguments unchanged", e.same>> >> \o
       (IF e.err # "" THEN <<>> ELSE
       << <<"one result per event", Len(e.got) = Len(rows)>>,
          <<"local magnitudes are converted by the formula", Len(e.got) = Len(rows) => \A i \in 1..Len(rows) : Kind(rows[i].ty) = "convert" => RowOk(rows[i], e.got[i])>>,
          <<"moment magnitudes are left as they are", Len(e.got) = Len(rows) => \A i \in 1..Len(rows) : Kind(rows[i].ty) = "keep" => RowOk(rows[i], e.got[i])>>,
          <<"other magnitudes are not passed off as converted", Len(e.got) = Len(rows) => \A i \in 1..Len(rows) : Kind(rows[i].ty) = "other" => RowOk(rows[i], e.got[i])>> >>)
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ rows' = (IF e.op = "start" THEN e.rows ELSE TLCEval([i \in 1..Len(rows) |-> IF Kind(rows[i].ty) = "other" THEN rows[i] ELSE After(rows[i])]))
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
