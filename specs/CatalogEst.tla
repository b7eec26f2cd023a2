----------------------------- MODULE CatalogEst -----------------------------
(* Estimation methods of a catalogue: where every parameter comes from and    *)
(* what is stored.  Values are tokens, 0 is "not given" / "not set".          *)
EXTENDS Common
Methods == {"maxc", "stability", "ks", "b", "a"}
Needs(m) == CASE m = "maxc" -> {} [] m \in {"stability", "ks"} -> {"delta_m"} [] OTHER -> {"mc", "delta_m"}
Takes(m) == Needs(m) \cup IF m = "ks" THEN {"b_value"} ELSE {}          \* parameters with the attribute as default
Stores(m) == CASE m \in {"maxc", "stability", "ks"} -> "mc" [] m = "b" -> "b_value" [] m = "a" -> "a_value"
Effective(m, explicit, attrs, p) == IF explicit[p] # 0 THEN explicit[p] ELSE IF p \in Takes(m) THEN attrs[p] ELSE 0
Refused(m, explicit, attrs) == \E p \in Needs(m) : Effective(m, explicit, attrs, p) = 0
(* columns: passed explicitly, else taken from the catalogue if the method can use them *)
Column(given, incatalogue, usable) == IF ~usable THEN 0 ELSE IF given # 0 THEN given ELSE incatalogue
=============================================================================
