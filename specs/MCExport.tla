------------------------------ MODULE MCExport ------------------------------
(* Writing row after row into a document and reading it back, for catalogues  *)
(* with every pattern of missing cells in a selection of columns.             *)
EXTENDS Export
CONSTANTS Columns, MaxRows
VARIABLES rows, k, docs, status
vars == <<rows, k, docs, status>>
Dom(c) == CASE c = "magnitude_type" -> {0, 5, 6}
            [] c = "magnitude_#5" -> {0, 51} [] c = "magnitude_#5_magnitudeID" -> {0, 52}
            [] c = "magnitude_#6" -> {0, 61} [] c = "magnitude_#6_uncertainty" -> {0, 62}
            [] c = "latitude" -> {0, 1} [] c = "time" -> {2} [] c = "longitude" -> {3}
            [] c = "time_uncertainty" -> {0, 7} [] c = "originID" -> {0, 8} [] c = "magnitudeID" -> {0, 9}
            [] c = "magnitude" -> {0, 11} [] c = "usedphasecount" -> {0, 12} [] OTHER -> {0, 13}
Types == {5, 6}
Rows1 == {<<>>} \cup FoldLeft(LAMBDA S, c : {Append(s, v) : s \in S, v \in Dom(c)}, {<<>>}, Columns)
RowsOk == {r \in Rows1 : Len(r) = Len(Columns)}
Init == /\ rows \in UNION {[1..n -> RowsOk] : n \in 0..MaxRows} /\ k = 1 /\ docs = <<>> /\ status = "export"
Next == /\ status = "export"
        /\ IF k > Len(rows) THEN status' = "done" /\ UNCHANGED <<rows, k, docs>>
           ELSE /\ docs' = IF Keeps(Columns, rows[k]) THEN Append(docs, ExportEvent(Columns, Types, rows[k], 1000 * k)) ELSE docs
                /\ k' = k + 1 /\ UNCHANGED <<rows, status>>
Spec == Init /\ [][Next]_vars
Kept == SelectSeq(rows, LAMBDA r : Keeps(Columns, r))
Fl == [all |-> TRUE, unc |-> TRUE, quality |-> TRUE, ids |-> TRUE]
(* identifiers created by the export are above 1000; seen as "fresh" (<= -10) *)
Fresh(p) == IF p[2] >= 1000 THEN <<p[1], -p[2]>> ELSE p
RoundTrip == status = "done" =>
  /\ Len(docs) = Len(Kept)
  /\ \A i \in 1..Len(docs) : RowClauses(Columns, Types, Kept[i], Fl, {Fresh(p) : p \in ImportPairs(docs[i])}) = {}
Emit == status = "done" => Case([cols |-> Columns, rows |-> rows])
=============================================================================
