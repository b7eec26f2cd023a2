---------------------------- MODULE TraceExport -----------------------------
(* Conformance of recorded export/import round trips with Export.tla.         *)
EXTENDS Export, TraceCommon
VARIABLES sid, l
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
ToPairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
DocClauses(e, rows, out) ==
  LET kept == SelectSeq(rows, LAMBDA r : Keeps(e.cols, r))
      types == ToSet(e.types)
  IN IF Len(out) # Len(kept) THEN {"exactly the located events are exported"}
     ELSE UNION {RowClauses(e.cols, types, kept[i], e.fl, ToPairs(out[i])) : i \in 1..Len(kept)}
          \cup {c \in {"created identifiers are unique"} :
                 ~ \A k \in IdCols : \A i, j \in 1..Len(out) :
                     i < j => (Obs(ToPairs(out[i]), k) > -10 \/ Obs(ToPairs(out[i]), k) # Obs(ToPairs(out[j]), k))}
TripClauses(e) ==
  IF e.err # "" THEN {"export and import do not fail"}
  ELSE DocClauses(e, e.rows, e.out)
       \cup Failing(<< <<"catalogue unchanged", e.kept>> >>)
(* one document per catalogue id, in any order                                *)
ForeClauses(e) ==
  IF e.err # "" THEN {"export and import do not fail"}
  ELSE LET ids == SetToSeq(ToSet(e.cid))
           n == Len(ids)
           rowsOf(c) == Pick(e.rows, Positions(e.cid, LAMBDA i : e.cid[i] = c))
       IN IF Len(e.outs) # n THEN {"one document per catalogue id"}
          ELSE Failing(<< <<"each document holds its catalogue's events",
                 \E p \in Permutations(1..n) : \A i \in 1..n : DocClauses(e, rowsOf(ids[p[i]]), e.outs[i]) = {}>>,
               <<"catalogue unchanged", e.kept>> >>)
Clauses(e) == CASE e.op = "trip" -> TripClauses(e)
                [] e.op = "forecast" -> ForeClauses(e)
                [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l>>
=============================================================================
