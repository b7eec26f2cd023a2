------------------------------ MODULE Columns -------------------------------
(* Which columns the methods of catalogues and rate grids need.               *)
EXTENDS Common
Standard == {"longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"}
Cell == {"longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max", "a", "b", "mc"}
Whole(kind) == CASE kind = "Catalog" -> Standard [] kind = "ForecastCatalog" -> Standard \cup {"catalog_id"} [] OTHER -> Cell
Needs(kind, op) ==
  CASE op \in {"bin", "bin in place", "maxc", "stability", "ks", "b", "a", "cum fmd", "fmd", "mc vs b"} -> {"magnitude"}
    [] op \in {"cum count", "mags in time"} -> {"time", "magnitude"}
    [] op = "space" -> {"latitude", "longitude", "magnitude"}
    [] op = "openquake" -> Standard \ {"magnitude_type"}
    [] op \in {"strip", "strip in place", "quakeml", "time index"} -> Whole(kind)
Missing(kind, op, cols) == Needs(kind, op) \ cols
(* columns after a call that was accepted                                      *)
Keeps(kind) == IF kind = "ForecastGRRateGrid" THEN Cell \cup {"grid_id"} ELSE Whole(kind)
After(kind, op, cols) == IF op = "strip in place" THEN cols \cap Keeps(kind) ELSE cols
=============================================================================
