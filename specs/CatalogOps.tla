----------------------------- MODULE CatalogOps -----------------------------
(* Catalogues as objects: a kind (decided by the columns whenever an object   *)
(* is created), columns, and attributes which belong to the kind.             *)
EXTENDS Common
AllAttrs == {"name", "mc", "a_value", "delta_m", "b_value", "starttime", "endtime", "bounding_polygon",
             "depth_min", "depth_max", "n_catalogs"}
Kinds == {"plain", "catalog", "forecast"}
Owns(kind) == CASE kind = "plain" -> {} [] kind = "catalog" -> AllAttrs \ {"n_catalogs"} [] kind = "forecast" -> AllAttrs
Unset == 0
Absent == -1                                   \* the object has no such attribute
Standard == {"longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"}
StandardOf(kind) == IF kind = "forecast" THEN Standard \cup {"catalog_id"} ELSE Standard
KindOf(cols) == IF "magnitude" \notin cols THEN "plain" ELSE IF "catalog_id" \in cols THEN "forecast" ELSE "catalog"
(* attributes of an object of a kind derived from a (kind, attributes) pair   *)
Carry(kind, srckind, attrs) ==
  [a \in AllAttrs |-> IF a \notin Owns(kind) THEN Absent ELSE IF a \in Owns(srckind) THEN attrs[a] ELSE Unset]
DerivedKind(srckind, cols) == IF srckind = "plain" THEN "plain" ELSE KindOf(cols)
(* the columns left by stripping, in order                                    *)
Stripped(kind, cols) == SelectSeq(cols, LAMBDA c : c \in StandardOf(kind))
StripRefused(kind, cols) == ~(StandardOf(kind) \subseteq Range(cols))
=============================================================================
