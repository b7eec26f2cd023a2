------------------------------- MODULE Export -------------------------------
(* Exporting a catalogue as QuakeML and importing it again.                   *)
(* A catalogue is a sequence of columns and of rows; a row is a sequence of   *)
(* numbers naming the cell values, 0 for a missing cell.  Secondary magnitude *)
(* columns of type t are called "magnitude_#t", "magnitude_#t_uncertainty"... *)
EXTENDS QuakeML

Value(cols, row, c) == LET I == {i \in 1..Len(cols) : cols[i] = c} IN IF I = {} THEN 0 ELSE row[Min(I)]
Keeps(cols, row) == \A c \in {"latitude", "longitude", "time"} : Value(cols, row, c) # 0

IdCols == {"eventID", "originID", "magnitudeID"}
ColSuffixes == {"", "_uncertainty", "_lowerUncertainty", "_upperUncertainty", "_confidenceLevel"}
SecVal(cols, row, t, s) == Value(cols, row, SecName(t) \o s)
UncSuffixes == ColSuffixes \ {""}
UncCols == {b \o s : b \in {"time", "latitude", "longitude", "depth", "magnitude"}, s \in UncSuffixes}
PlainCols == {"time", "latitude", "longitude", "depth", "magnitude", "magnitude_type", "event_type", "evaluationmode"}

Failing2(checks) == {checks[i][1] : i \in {j \in 1..Len(checks) : ~checks[j][2]}}

(* -- declarative: the cells that have to come back                           *)
Back(cols, row, S) == {p \in {<<c, Value(cols, row, c)>> : c \in S} : p[2] # 0}
RowPairs(cols, row, fl) ==
  Back(cols, row, PlainCols) \cup (IF fl.unc THEN Back(cols, row, UncCols) ELSE {})
  \cup (IF fl.quality THEN Back(cols, row, Range2(QualityCols)) ELSE {})
RowKeys == PlainCols \cup UncCols \cup Range2(QualityCols)
MType(cols, row) == Value(cols, row, "magnitude_type")
(* a secondary magnitude needs a value                                        *)
SecExpected(cols, row, t, fl) ==
  LET sfx == {s \in ColSuffixes : SecVal(cols, row, t, s) # 0 /\ (s = "" \/ fl.unc)} IN
  {<<SecName(t) \o s, SecVal(cols, row, t, s)>> : s \in sfx}
HasSec(cols, row, t) == SecVal(cols, row, t, "") # 0
PreferredAsSec(cols, row, t) ==
  {<<SecName(t) \o s, Value(cols, row, "magnitude" \o s)>> : s \in ColSuffixes}
(* identifiers: given ones come back, missing ones are created                *)
IdOk(obs, given) == IF given # 0 THEN obs = given ELSE obs <= -10
Obs(pairs, k) == LET P == {p \in pairs : p[1] = k} IN IF P = {} THEN 0 ELSE (CHOOSE p \in P : TRUE)[2]

RowClauses(cols, types, row, fl, pairs) ==
  LET sec == {t \in types : t # MType(cols, row) /\ HasSec(cols, row, t)}
      ids == IdCols \cup {SecName(t) \o "_magnitudeID" : t \in types}
      seck == UNION {SecKeys(t) : t \in types}
  IN Failing2(<<
     <<"times, places, magnitudes, types and quality values", Only(pairs, RowKeys) = RowPairs(cols, row, fl)>>,
     <<"identifiers", IF fl.ids THEN \A c \in IdCols : IdOk(Obs(pairs, c), Value(cols, row, c))
                      ELSE Only(pairs, ids) = {}>>,
     <<"secondary magnitudes",
        \A t \in types :
          LET got == Only(pairs, SecKeys(t) \ {SecName(t) \o "_magnitudeID"}) IN
          IF fl.all /\ t \in sec THEN got = SecExpected(cols, row, t, fl)
          ELSE IF t = MType(cols, row) THEN got \subseteq PreferredAsSec(cols, row, t)
          ELSE IF fl.all /\ \E s \in UncSuffixes : SecVal(cols, row, t, s) # 0 THEN TRUE
          ELSE got = {}>>,
     <<"identifiers of secondary magnitudes",
        ~(fl.all /\ fl.ids) \/ \A t \in sec : IdOk(Obs(pairs, SecName(t) \o "_magnitudeID"), SecVal(cols, row, t, "_magnitudeID"))>>,
     <<"nothing else", \A p \in pairs : p[1] \in RowKeys \cup ids \cup seck>> >>)

(* -- operational: the document an export writes                              *)
Fld(cols, row, table) ==
  LET P == SetToSeq({x \in DOMAIN table : Value(cols, row, table[x]) # 0}) IN
  [i \in 1..Len(P) |-> <<P[i], Value(cols, row, table[P[i]])>>]
ExportEvent(cols, types, row, fresh) ==
  LET id(c, k) == IF Value(cols, row, c) # 0 THEN Value(cols, row, c) ELSE fresh + k
      ts == SetToSeq({t \in types : t # MType(cols, row) /\ HasSec(cols, row, t)})
      sec(k) == [k |-> "m", id |-> id(SecName(ts[k]) \o "_magnitudeID", 10 + k), type |-> ts[k],
                 f |-> Fld(cols, row, MagCols(SecName(ts[k]))), ver |-> -1, ct |-> -1]
  IN [id |-> id("eventID", 0), type |-> Value(cols, row, "event_type"), po |-> id("originID", 1), pm |-> id("magnitudeID", 2),
      items |-> << [k |-> "m", id |-> id("magnitudeID", 2), type |-> MType(cols, row),
                    f |-> Fld(cols, row, MagCols("magnitude")), ver |-> -1, ct |-> -1] >>
                \o [k \in 1..Len(ts) |-> sec(k)]
                \o << [k |-> "o", id |-> id("originID", 1), type |-> 0,
                       f |-> Fld(cols, row, OriginCols @@ QualityCols), ver |-> -1, ct |-> -1] >>]
ImportPairs(ev) ==
  EventPairs(ev) \cup OriginPairs(ev, TRUE) \cup MagnitudePairs(ev)
  \cup UNION {SecPairs(ev, t, CHOOSE i \in Allowed(ev, t) : TRUE) : t \in TypesOf(ev)}
=============================================================================
