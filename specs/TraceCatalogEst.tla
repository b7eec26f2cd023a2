-------------------------- MODULE TraceCatalogEst ----------------------------
(* Conformance of recorded estimation histories on real catalogues.  For      *)
(* every call the harness also ran the standalone estimator with every        *)
(* combination of the values at hand (e.rows); the specification says which   *)
(* row the catalogue must agree with.                                         *)
EXTENDS CatalogEst, TraceCommon
VARIABLES sid, l, obs
vars == <<sid, l, obs>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ obs = [attrs |-> [p \in {} |-> 0], data |-> 0]
Rows(e) ==
  LET want == [mc |-> Effective(e.m, e.ex, obs.attrs, "mc"), dm |-> Effective(e.m, e.ex, obs.attrs, "delta_m"),
               b |-> Effective(e.m, e.ex, obs.attrs, "b_value"),
               w |-> Column(e.givenw, e.colw, e.usew), t |-> Column(e.givent, e.colt, e.uset), x |-> Column(e.givenx, e.colx, e.usex)] IN
  {i \in 1..Len(e.rows) : /\ e.rows[i].dm = want.dm /\ (e.m \in {"a", "b"} => e.rows[i].mc = want.mc /\ e.rows[i].t = want.t)
                          /\ (e.m = "b" => e.rows[i].w = want.w) /\ (e.m \in {"ks", "a"} => e.rows[i].b = want.b)
                          /\ (e.m \in {"a", "b"} => e.rows[i].x = want.x)}
EstClauses(e) ==
  LET dataok == <<"the events are not changed", e.after.data = obs.data>>
      same == \A p \in DOMAIN obs.attrs : e.after.attrs[p] = obs.attrs[p] IN
  IF e.nomag \/ Refused(e.m, e.ex, obs.attrs)
  THEN Failing(<< <<"missing parameters or magnitudes are refused", e.err # "">>, <<"a failed call changes nothing", same>>, dataok >>)
  ELSE LET R == Rows(e) IN
    IF R = {} THEN {"no standalone result recorded"}
    ELSE LET r == e.rows[CHOOSE i \in R : TRUE] IN
      IF r.err # ""
      THEN Failing(<< <<"fails when the standalone estimator fails", e.err # "">>, <<"a failed call changes nothing", same>>, dataok >>)
      ELSE IF e.err # "" THEN {"fails only when the standalone estimator fails"}
      ELSE Failing(<<
        <<"same result as the standalone estimator", e.res = r.res>>,
        <<"the result is stored", e.after.attrs[Stores(e.m)] = r.value>>,
        <<"no other attribute changes", \A p \in DOMAIN obs.attrs : p # Stores(e.m) => e.after.attrs[p] = obs.attrs[p]>>, dataok >>)
SetClauses(e) == Failing(<< <<"attribute set", e.after.attrs = [obs.attrs EXCEPT ![e.p] = e.v]>>, <<"the events are not changed", e.after.data = obs.data>> >>)
Clauses(e) == CASE e.op = "new" -> Failing(<< <<"attributes given to the constructor", \A p \in DOMAIN e.given : e.after.attrs[p] = e.given[p]>> >>)
                [] e.op = "set" -> SetClauses(e) [] e.op = "est" -> EstClauses(e) [] OTHER -> {"unknown event"}
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Clauses(Ev[l])) /\ l' = l + 1 /\ obs' = Ev[l].after /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
