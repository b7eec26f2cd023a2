---------------------------- MODULE TracePurity ----------------------------
(* Conformance of recorded histories of calls and writes on shared objects.   *)
EXTENDS Purity, TraceCommon
VARIABLES sid, l, heap, memo
vars == <<sid, l, heap, memo>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ heap = <<>> /\ memo = {}
Known(h) == SubSeq(h, 1, Len(heap))
Checks(e) ==
  CASE e.k = "have" -> << <<"objects held unchanged", Len(e.heap) >= Len(heap) /\ Known(e.heap) = heap>> >>
    [] e.k = "call" ->
         << <<"caller's data unchanged", Spilled(heap, Known(e.heap), e.kind, e.args) = {}>>,
            <<"same arguments, same result", e.random \/ Consistent(memo, Key(e.op, e.kind, heap, e.args), e.res)>> >>
    [] e.k = "poke" -> << <<"results own their data", SpilledByPoke(heap, Known(e.heap), e.obj) = {}>> >>
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ heap' = e.heap
       /\ memo' = (IF e.k = "call" /\ ~e.random THEN memo \cup {<<Key(e.op, e.kind, heap, e.args), e.res>>} ELSE memo)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
