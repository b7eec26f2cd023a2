---------------------------- MODULE MCCatalogOps ----------------------------
(* Objects are created by the two steps of the implementation: build (kind    *)
(* from the columns, attributes unset) and finalize (copy the attributes both *)
(* kinds have).  History variable hist records what was done; Val recomputes  *)
(* every attribute from the history alone.                                    *)
EXTENDS CatalogOps
CONSTANTS Depth, MaxObj
VARIABLES pool, pending, hist
vars == <<pool, pending, hist>>
Attr2 == {"name", "n_catalogs"}
ColSets == SUBSET {"magnitude", "catalog_id"}
New(k) == [kind |-> k, cols |-> IF k = "forecast" THEN {"magnitude", "catalog_id"} ELSE {"magnitude"},
           attrs |-> [a \in Attr2 |-> IF a \in Owns(k) THEN 1 ELSE Absent]]
Init == /\ \E k \in {"catalog", "forecast"} : pool = <<New(k)>> /\ hist = <<<<"new", k, 0, 0>>>>
        /\ pending = 0
Idle == pending = 0 /\ Len(hist) <= Depth
Objs == 1..Len(pool)
(* classes of operations, by their effect on the columns                      *)
Effect(op, cols) == CASE op = "rows" -> cols [] op = "nomag" -> cols \ {"magnitude"} [] op = "nocid" -> cols \ {"catalog_id"}
                      [] op = "withcid" -> cols \cup {"catalog_id"}
Build(op, src, other, cols) ==
  LET k == DerivedKind(pool[src].kind, cols) IN
  /\ Len(pool) < MaxObj
  /\ pool' = Append(pool, [kind |-> k, cols |-> cols, attrs |-> [a \in Attr2 |-> IF a \in Owns(k) THEN Unset ELSE Absent]])
  /\ pending' = src /\ hist' = Append(hist, <<op, k, src, other>>)
Derive == Idle /\ \E s \in Objs : \E op \in {"rows", "nomag", "nocid", "withcid"} : Build(op, s, 0, Effect(op, pool[s].cols))
Combine == Idle /\ \E s, o \in Objs : Build("combine", s, o, pool[s].cols \cup pool[o].cols)
Finalize == /\ pending # 0
            /\ LET n == Len(pool) IN pool' = [pool EXCEPT ![n].attrs = [a \in Attr2 |->
                 IF a \in Owns(pool[n].kind) /\ a \in Owns(pool[pending].kind) THEN pool[pending].attrs[a] ELSE pool[n].attrs[a]]]
            /\ pending' = 0 /\ UNCHANGED hist
SetAttr == Idle /\ \E s \in Objs : \E a \in Attr2 : a \in Owns(pool[s].kind)
             /\ LET v == Len(hist) + 1 IN pool' = [pool EXCEPT ![s].attrs[a] = v] /\ hist' = Append(hist, <<"set", a, s, v>>)
             /\ UNCHANGED pending
InPlace == Idle /\ \E s \in Objs : \E op \in {"nomag", "nocid", "withcid"} :
             /\ Effect(op, pool[s].cols) # pool[s].cols
             /\ pool' = [pool EXCEPT ![s].cols = Effect(op, @)] /\ hist' = Append(hist, <<"inplace", op, s, 0>>) /\ UNCHANGED pending
Next == Derive \/ Combine \/ Finalize \/ SetAttr \/ InPlace
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------ declarative reading ----- *)
Creates(e) == e[1] \notin {"set", "inplace"}
ObjOf(h, t) == Cardinality({i \in 1..t : Creates(h[i])})          \* number of the object created at t
RECURSIVE Val(_, _, _)
Val(h, o, a) ==
  LET T == {t \in 1..Len(h) : (Creates(h[t]) /\ ObjOf(h, t) = o) \/ (h[t][1] = "set" /\ h[t][3] = o /\ h[t][2] = a)}
      t == Max(T)
      e == h[t] IN
  IF e[1] = "set" THEN e[4]
  ELSE IF e[1] = "new" THEN (IF a \in Owns(e[2]) THEN 1 ELSE Absent)
  ELSE IF a \notin Owns(e[2]) THEN Absent
  ELSE IF Val(SubSeq(h, 1, t - 1), e[3], a) = Absent THEN Unset ELSE Val(SubSeq(h, 1, t - 1), e[3], a)
Done == pending = 0
AttrsFollowHistory == Done => \A o \in Objs : \A a \in Attr2 : pool[o].attrs[a] = Val(hist, o, a)
PlainStaysPlain == \A i \in 1..Len(hist) : Creates(hist[i]) /\ hist[i][1] # "new"
                     => (pool[hist[i][3]].kind = "plain" => hist[i][2] = "plain")
Emit == (Done /\ Len(hist) = Depth + 1) => Case([h |-> hist])
=============================================================================
