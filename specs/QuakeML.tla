------------------------------ MODULE QuakeML -------------------------------
(* QuakeML documents and what parsing them has to yield.                      *)
(*                                                                            *)
(* A document is a sequence of events                                         *)
(*   [id, type, po, pm, items]   (identifiers and texts are numbers, 0 = none)*)
(* with items (origins and magnitudes, in document order)                     *)
(*   [k |-> "o" | "m", id, type, f, ver, ct]                                  *)
(* where f is a sequence of <<path, text>>: the leaf elements below the item; *)
(* ver is the version number (-1 absent, -2 not a number) and ct the creation *)
(* time in tenths of a second (-1 absent).                                    *)
EXTENDS Common

Paths(xpath, col) ==
  (xpath \o "/value" :> col) @@ (xpath \o "/uncertainty" :> (col \o "_uncertainty"))
  @@ (xpath \o "/lowerUncertainty" :> (col \o "_lowerUncertainty"))
  @@ (xpath \o "/upperUncertainty" :> (col \o "_upperUncertainty"))
  @@ (xpath \o "/confidenceLevel" :> (col \o "_confidenceLevel"))
OriginCols ==
  Paths("time", "time") @@ Paths("latitude", "latitude") @@ Paths("longitude", "longitude")
  @@ Paths("depth", "depth") @@ ("evaluationMode" :> "evaluationmode")
QualityCols ==
  ("quality/associatedPhaseCount" :> "associatedphasecount") @@ ("quality/usedPhaseCount" :> "usedphasecount")
  @@ ("quality/associatedStationCount" :> "associatedstationcount")
  @@ ("quality/usedStationCount" :> "usedstationcount") @@ ("quality/depthPhaseCount" :> "depthphasecount")
  @@ ("quality/standardError" :> "standarderror") @@ ("quality/azimuthalGap" :> "azimuthalgap")
  @@ ("quality/secondaryAzimuthalGap" :> "secondaryazimuthalgap")
  @@ ("quality/maximumDistance" :> "maximumdistance") @@ ("quality/minimumDistance" :> "minimumdistance")
  @@ ("quality/medianDistance" :> "mediandistance")
MagCols(col) == Paths("mag", col)

(* columns of the fields of an item under a path -> column table              *)
Cols(f, table) == {<<table[f[i][1]], f[i][2]>> : i \in {j \in 1..Len(f) : f[j][1] \in DOMAIN table}}
Tag(k, v) == IF v = 0 THEN {} ELSE {<<k, v>>}

Named(ev, k, id) == IF id = 0 THEN {} ELSE {i \in 1..Len(ev.items) : ev.items[i].k = k /\ ev.items[i].id = id}
OriginPairs(ev, quality) ==
  UNION {LET o == ev.items[i] IN Tag("originID", o.id) \cup Cols(o.f, OriginCols)
                                 \cup (IF quality THEN Cols(o.f, QualityCols) ELSE {})
           : i \in Named(ev, "o", ev.po)}
MagnitudePairs(ev) ==
  UNION {LET m == ev.items[i] IN Tag("magnitudeID", m.id) \cup Tag("magnitude_type", m.type) \cup Cols(m.f, MagCols("magnitude"))
           : i \in Named(ev, "m", ev.pm)}
EventPairs(ev) == Tag("eventID", ev.id) \cup Tag("event_type", ev.type)

(* other magnitudes: one per type                                             *)
TypesOf(ev) == {ev.items[i].type : i \in {j \in 1..Len(ev.items) : ev.items[j].k = "m"}} \ {0}
OfType(ev, t) == {i \in 1..Len(ev.items) : ev.items[i].k = "m" /\ ev.items[i].type = t}
(* one version/time missing makes the criterion unusable: any choice is right *)
Better(ev, i, j) ==
  LET a == ev.items[i] b == ev.items[j] IN
  \/ a.ver > b.ver
  \/ a.ver = b.ver /\ a.ct > b.ct
Comparable(ev, S) ==
  /\ (\A i \in S : ev.items[i].ver >= 0) \/ (\A i \in S : ev.items[i].ver < 0)
  /\ (\A i \in S : ev.items[i].ct >= 0) \/ (\A i \in S : ev.items[i].ct < 0)
(* of values that are absent everywhere only the remaining criterion counts   *)
Level(ev, S) == [ev EXCEPT !.items = [i \in 1..Len(ev.items) |->
                   IF i \in S /\ ev.items[i].ver < 0 THEN [ev.items[i] EXCEPT !.ver = -1] ELSE ev.items[i]]]
Best(ev, S) == IF Comparable(ev, S)
               THEN LET e2 == Level(ev, S) IN {i \in S : ~\E j \in S : Better(e2, j, i)}
               ELSE S
Allowed(ev, t) ==
  LET S == OfType(ev, t)
      P == Named(ev, "m", ev.pm) \cap S
  IN  IF P # {} THEN P ELSE Best(ev, S)
SecName(t) == "magnitude_#" \o ToString(t)
SecPairs(ev, t, i) == LET m == ev.items[i] IN
  Cols(m.f, MagCols(SecName(t))) \cup Tag(SecName(t) \o "_magnitudeID", m.id)
SecKeys(t) == {SecName(t), SecName(t) \o "_uncertainty", SecName(t) \o "_lowerUncertainty",
               SecName(t) \o "_upperUncertainty", SecName(t) \o "_confidenceLevel", SecName(t) \o "_magnitudeID"}

Range2(f) == {f[x] : x \in DOMAIN f}
OriginKeys == Range2(OriginCols) \cup Range2(QualityCols) \cup {"originID"}
MagKeys == Range2(MagCols("magnitude")) \cup {"magnitudeID", "magnitude_type"}
EvKeys == {"eventID", "event_type"}
Only(pairs, keys) == {p \in pairs : p[1] \in keys}

(* verdict on one record: names of violated clauses                           *)
RecordClauses(ev, all, quality, pairs) ==
  LET sec == IF all THEN TypesOf(ev) ELSE {}
      seckeys == UNION {SecKeys(t) : t \in TypesOf(ev)}
  IN {c \in {"attributes of the event", "values of the preferred origin", "values of the preferred magnitude",
             "secondary magnitudes", "nothing else"} :
        ~CASE c = "attributes of the event" -> Only(pairs, EvKeys) = EventPairs(ev)
           [] c = "values of the preferred origin" -> Only(pairs, OriginKeys) = OriginPairs(ev, quality)
           [] c = "values of the preferred magnitude" -> Only(pairs, MagKeys) = MagnitudePairs(ev)
           [] c = "secondary magnitudes" ->
                IF ~all THEN Only(pairs, seckeys) = {}
                ELSE \A t \in sec : \E i \in Allowed(ev, t) : Only(pairs, SecKeys(t)) = SecPairs(ev, t, i)
           [] OTHER -> \A p \in pairs : p[1] \in EvKeys \cup OriginKeys \cup MagKeys \cup seckeys}
=============================================================================
