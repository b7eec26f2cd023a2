------------------------------- MODULE Purity -------------------------------
(* Ownership of data.  The caller holds objects; an object has six parts:     *)
(* its data and, for catalogues and grids, the attributes mc, b_value,        *)
(* a_value, delta_m and everything else about it.  A heap gives every object  *)
(* the content (token) of its parts.  A call may write only its footprint:    *)
(* nothing, or the parts it documents to store or was asked to change in      *)
(* place on its first argument.  Results are new objects that own their       *)
(* data.  What a deterministic call answers is a function of what its         *)
(* arguments contain at the time of the call.                                 *)
EXTENDS Common
Parts == 1..6
Data == 1
Attr == [mc |-> 2, b |-> 3, a |-> 4, dm |-> 5]
Kinds == {"pure", "storemc", "storeb", "storea", "bin", "inplace"}
Writes(kind) == CASE kind = "pure" -> {} [] kind = "storemc" -> {Attr.mc} [] kind = "storeb" -> {Attr.b}
                  [] kind = "storea" -> {Attr.a} [] kind = "bin" -> {Data, Attr.dm} [] kind = "inplace" -> {Data}
(* an attribute that merely receives the result is no input of the call       *)
Hidden(kind) == IF kind \in {"storemc", "storeb", "storea"} THEN Writes(kind) ELSE {}
(* objects of the caller whose parts a step changed without being asked to    *)
Spilled(before, after, kind, args) ==
  {o \in 1..Len(before) : \E p \in Parts : before[o][p] # after[o][p] /\ ~(args # <<>> /\ o = args[1] /\ p \in Writes(kind))}
SpilledByPoke(before, after, o) == {q \in 1..Len(before) : q # o /\ before[q] # after[q]}
Seen(heap, kind, o) == [p \in Parts |-> IF p \in Hidden(kind) THEN 0 ELSE heap[o][p]]
Key(op, kind, heap, args) == <<op, [i \in 1..Len(args) |-> Seen(heap, kind, args[i])]>>
Consistent(memo, key, res) == \A m \in memo : m[1] = key => m[2] = res
=============================================================================
