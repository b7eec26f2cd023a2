--------------------------- MODULE TraceCatalogOps ---------------------------
(* Conformance of recorded operation histories on real catalogue objects.     *)
(* obs is the observed pool after the previous event: kind, columns,          *)
(* attributes (tokens) and data (token) of every object.                      *)
EXTENDS CatalogOps, TraceCommon
VARIABLES sid, l, obs
vars == <<sid, l, obs>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ obs = <<>>
Untouched(e, except) ==
  \A o \in 1..Len(obs) : /\ e.after[o].kind = obs[o].kind
                          /\ \/ o \in except \/ e.after[o] = obs[o]
                             \* plain tables may share their data with what they were taken from
                             \/ ((obs[o].kind = "plain" \/ \E x \in except : obs[x].kind = "plain") /\ e.after[o].attrs = obs[o].attrs)
WellFormed(s) == s.kind \in {"plain", KindOf(Range(s.cols))}
NewClauses(e) ==
  LET r == e.after[Len(e.after)] IN
  Failing(<< <<"construction does not fail", e.err = "">>,
             <<"attributes given to the constructor", e.err # "" \/ r.attrs = e.attrs>>,
             <<"kind of a constructed object", e.err # "" \/ r.kind = e.kind>> >>)
DeriveClauses(e) ==
  IF e.err # "" THEN Failing(<< <<"the operation fails only if it fails on a plain table", e.perr # "" \/ ~WellFormed(obs[e.src])>>,
                                <<"a failed operation changes nothing", Untouched(e, {})>> >>)
  ELSE LET s == obs[e.src] IN
       IF e.rkind = "other" THEN Failing(<< <<"same values as on a plain table", e.perr = "" /\ e.rdata = e.pdata>>,
                                            <<"operands unchanged", Untouched(e, {})>> >>)
       ELSE LET r == e.after[Len(obs) + 1]
                k == DerivedKind(s.kind, Range(r.cols)) IN
            Failing(<<
              \* relabelling and assigning columns may keep the kind; objects whose columns no longer fit are not judged
              <<"kind follows the columns", r.kind = k \/ (e.relabel /\ r.kind = s.kind) \/ ~WellFormed(s)>>,
              <<"attributes carried from the first operand", \/ r.attrs = Carry(r.kind, s.kind, s.attrs)
                 \/ (~WellFormed(s) /\ \A a \in AllAttrs : r.attrs[a] \in {Carry(r.kind, s.kind, s.attrs)[a], Unset})>>,
              <<"same values as on a plain table", e.perr # "" \/ e.rdata = e.pdata>>,
              <<"operands unchanged", Untouched(e, {})>> >>)
InPlaceClauses(e) ==
  IF e.err # "" THEN Failing(<< <<"the operation fails only if it fails on a plain table", e.perr # "">> >>)
  ELSE LET r == e.after[e.src] IN
       Failing(<< <<"attributes survive changes in place", r.attrs = obs[e.src].attrs>>,
                  <<"same values as on a plain table", r.data = e.pdata>>,
                  <<"only the object itself changes", Untouched(e, {e.src})>> >>)
SetClauses(e) ==
  LET r == e.after[e.src] IN
  Failing(<< <<"attribute set", r.attrs = [obs[e.src].attrs EXCEPT ![e.attr] = e.value]>>,
             <<"setting an attribute leaves the data", r.data = obs[e.src].data /\ r.cols = obs[e.src].cols>>,
             <<"setting an attribute changes no other object", Untouched(e, {e.src})>> >>)
StripClauses(e) ==
  LET s == obs[e.src] IN
  IF StripRefused(s.kind, s.cols) THEN Failing(<< <<"stripping refuses missing standard columns", e.err # "">>,
                                                  <<"a failed operation changes nothing", Len(e.after) = Len(obs) /\ Untouched(e, {})>> >>)
  ELSE IF e.err # "" THEN {"stripping a complete catalogue does not fail"}
  ELSE LET r == e.after[IF e.inplace THEN e.src ELSE Len(obs) + 1] IN
       Failing(<< <<"stripping keeps exactly the standard columns", r.cols = Stripped(s.kind, s.cols)>>,
                  <<"stripping keeps kind and attributes", r.kind = s.kind /\ r.attrs = s.attrs>>,
                  <<"stripping keeps the values", r.data = e.pdata>>,
                  <<"only the object itself changes", Untouched(e, IF e.inplace THEN {e.src} ELSE {})>> >>)
BinClauses(e) ==
  LET s == obs[e.src]
      dm == IF e.dm # Unset THEN e.dm ELSE s.attrs["delta_m"] IN
  IF dm = Unset THEN Failing(<< <<"binning needs a width", e.err # "">>,
                                <<"a failed operation changes nothing", Len(e.after) = Len(obs) /\ Untouched(e, {})>> >>)
  ELSE IF e.err # "" THEN {"binning does not fail"}
  ELSE LET r == e.after[IF e.inplace THEN e.src ELSE Len(obs) + 1]
           k == IF e.inplace THEN s.kind ELSE KindOf(Range(s.cols)) IN
       Failing(<< <<"binning records the width and keeps the other attributes", r.attrs = [Carry(k, s.kind, s.attrs) EXCEPT !["delta_m"] = dm]>>,
                  <<"binning keeps the kind", r.kind = k>>,
                  <<"binning changes the magnitudes only", r.data = e.pdata>>,
                  <<"only the object itself changes", Untouched(e, IF e.inplace THEN {e.src} ELSE {})>> >>)
GroupClauses(e) ==
  IF e.err # "" THEN {"the operation fails only if it fails on a plain table"}
  ELSE LET r == e.after[2] s == obs[1] IN
       Failing(<< <<"kind follows the columns", r.kind = KindOf(Range(r.cols))>>,
                  <<"attributes carried from the first operand", \A a \in AllAttrs \ {"name"} : r.attrs[a] = Carry(r.kind, s.kind, s.attrs)[a]>>,
                  <<"groupby.apply keeps the name", r.attrs["name"] = s.attrs["name"]>>,
                  <<"operands unchanged", Untouched(e, {})>> >>)
Clauses(e) == CASE e.op = "gbapply" -> GroupClauses(e) [] e.op = "new" -> NewClauses(e) [] e.op = "derive" -> DeriveClauses(e) [] e.op = "inplace" -> InPlaceClauses(e)
                [] e.op = "set" -> SetClauses(e) [] e.op = "strip" -> StripClauses(e) [] e.op = "bin" -> BinClauses(e)
                [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ obs' = Ev[l].after /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
