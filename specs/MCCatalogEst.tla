---------------------------- MODULE MCCatalogEst ----------------------------
(* All histories of setting attributes and estimating (an estimation may also *)
(* fail after its parameters were resolved).  The implementation assigns the  *)
(* attribute after the estimator returned.                                    *)
EXTENDS CatalogEst
CONSTANTS Depth
VARIABLES attrs, pc, cur, hist
vars == <<attrs, pc, cur, hist>>
Params == {"mc", "delta_m", "b_value"}
None == [op |-> "none", m |-> "none", ex |-> [p \in Params |-> 0], ok |-> TRUE]
Init == /\ attrs \in [{"mc", "delta_m", "b_value", "a_value"} -> {0, 1}] /\ attrs["a_value"] = 0
        /\ pc = "idle" /\ cur = None /\ hist = <<[op |-> "new", a |-> attrs]>>
Set == /\ pc = "idle" /\ Len(hist) <= Depth
       /\ \E p \in Params : \E v \in {0, 2} : attrs' = [attrs EXCEPT ![p] = v] /\ hist' = Append(hist, [op |-> "set", p |-> p, v |-> v])
       /\ UNCHANGED <<pc, cur>>
Call == /\ pc = "idle" /\ Len(hist) <= Depth
        /\ \E m \in Methods : \E ex \in [Params -> {0, 3}] : \E ok \in BOOLEAN :
             /\ \A p \in Params \ Takes(m) : ex[p] = 0
             /\ cur' = [op |-> "est", m |-> m, ex |-> ex, ok |-> ok]
        /\ pc' = "resolve" /\ UNCHANGED <<attrs, hist>>
Resolve == /\ pc = "resolve" /\ pc' = (IF Refused(cur.m, cur.ex, attrs) THEN "refused" ELSE "compute") /\ UNCHANGED <<attrs, cur, hist>>
Compute == /\ pc = "compute" /\ pc' = (IF cur.ok THEN "store" ELSE "refused") /\ UNCHANGED <<attrs, cur, hist>>
Store == /\ pc = "store" /\ attrs' = [attrs EXCEPT ![Stores(cur.m)] = 100 + Len(hist)]
         /\ hist' = Append(hist, cur) /\ pc' = "idle" /\ cur' = None
Refuse == /\ pc = "refused" /\ hist' = Append(hist, cur) /\ pc' = "idle" /\ cur' = None /\ UNCHANGED attrs
Next == Set \/ Call \/ Resolve \/ Compute \/ Store \/ Refuse
Spec == Init /\ [][Next]_vars
(* attribute values recomputed from the history                               *)
RECURSIVE At(_, _)
At(h, p) == LET e == h[Len(h)] r == SubSeq(h, 1, Len(h) - 1) IN
  IF e.op = "new" THEN e.a[p]
  ELSE IF e.op = "set" THEN (IF e.p = p THEN e.v ELSE At(r, p))
  ELSE IF e.ok /\ Stores(e.m) = p /\ \A q \in Needs(e.m) : e.ex[q] # 0 \/ At(r, q) # 0 THEN 100 + Len(r) ELSE At(r, p)
AttributesFollowHistory == pc = "idle" => \A p \in DOMAIN attrs : attrs[p] = At(hist, p)
OneStore == [][pc = "store" => \A p \in DOMAIN attrs : attrs'[p] # attrs[p] => p = Stores(cur.m)]_vars
FailureKeepsAll == [][(pc \in {"refused", "resolve", "compute"}) => UNCHANGED attrs]_vars
Emit == (pc = "idle" /\ Len(hist) = Depth + 1) => Case([h |-> hist])
=============================================================================
