------------------------------ MODULE Construct ------------------------------
(* Construction of a catalogue from a table of cells (C16).                   *)
(*                                                                            *)
(* Cells carry their meaning, not their notation:                             *)
(*   numeric <<0, v>> (v micro-units), <<1, 0>> unparsable or null,            *)
(*           <<2, 0>> / <<3, 0>> plus / minus infinity                         *)
(*   time    <<0, day, second, microsecond, offset>> clock time as written     *)
(*           with its distance from UTC in minutes (9999: none written),       *)
(*           <<1, 0, 0, 0, 0>> null, <<2, 0, 0, 0, 0>> not a time              *)
(*   text    a string; "@missing" is null                                      *)
(*   other   a token                                                           *)
EXTENDS Common
NumericCols == {"magnitude", "latitude", "longitude", "depth", "associatedphasecount", "usedphasecount",
                "associatedstationcount", "usedstationcount", "standarderror", "azimuthalgap", "secondaryazimuthalgap",
                "maximumdistance", "minimumdistance", "mediandistance"}
TimeCols == {"time"}
TextCols == {"magnitude_type", "event_type"}
StandardCols == <<"longitude", "latitude", "depth", "time", "magnitude", "magnitude_type">>
NullTexts == {"", "nan", "NaN", "none", "None", "na", "Na", "NA", "null", "Null", "NULL"}
KindOfCol(c) == IF c \in NumericCols THEN "num" ELSE IF c \in TimeCols THEN "time" ELSE IF c \in TextCols THEN "text" ELSE "other"
NormNum(c) == c
NormTime(c) == <<c[1], c[2], c[3], c[4]>>
NormText(c) == IF c \in NullTexts THEN "@missing" ELSE c
Norm1(kind, c) == CASE kind = "num" -> NormNum(c) [] kind = "time" -> NormTime(c) [] kind = "text" -> NormText(c) [] OTHER -> c
NormCol(col) == [i \in 1..Len(col.cells) |-> Norm1(KindOfCol(col.name), col.cells[i])]
(* a table with something that is no time in its time column is refused        *)
Refused(cols) == \E i \in 1..Len(cols) : cols[i].name \in TimeCols /\ \E j \in 1..Len(cols[i].cells) : cols[i].cells[j][1] = 2
(* dropping columns: every column carries its class                            *)
Dropped(cls, unc, ids) == (cls = "unc" /\ ~unc) \/ (cls = "id" /\ ~ids)
Kept(cols, unc, ids) == SelectSeq(cols, LAMBDA c : ~Dropped(c.cls, unc, ids))
ResultCols(cols) == IF Len(cols) = 0 THEN StandardCols ELSE [i \in 1..Len(cols) |-> cols[i].name]
=============================================================================
