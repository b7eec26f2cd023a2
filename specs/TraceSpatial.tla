---------------------------- MODULE TraceSpatial ----------------------------
(* Conformance of recorded selections, transformers and boxes.                *)
EXTENDS Spatial, TraceCommon
VARIABLES sid, l, ref, mem
vars == <<sid, l, ref, mem>>
Ev == Sessions[sid].ev
Zero == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ ref = Zero /\ mem = <<>>
Ok(e) == e.err = ""
Flat(V) == [i \in 1..Len(V) |-> <<V[i][1], V[i][2]>>]
Checks(e) ==
  CASE e.k = "select" ->
         LET idx == TLCEval(Selected(e.P, e.pts)) IN
         << <<"polygon of the domain", Simple(e.P)>>, <<"selection succeeds", Ok(e)>> >> \o
         (IF ~Ok(e) THEN <<>> ELSE
         << <<"exactly the events inside or on the polygon", e.rows = idx>>,
            <<"rows unchanged", Same(e.cells, Pick(e.before, idx))>>,
            <<"all columns", e.cols = e.cols0>>,
            <<"kind of table kept", e.cls = e.cls0>>,
            <<"catalogue unchanged", e.same>> >>)
    [] e.k = "new" -> << <<"transformer built", Ok(e)>> >>
    [] e.k = "to" ->
         << <<"transformation succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE
         << <<"projected point less the reference", AllNear(e.got, [i \in 1..Len(e.proj) |-> Local(e.proj[i], ref)], e.tol)>>,
            <<"arguments unchanged", e.same>> >>)
    [] e.k = "from" ->
         << <<"transformation succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE
         << <<"projects to the local point plus the reference", AllNear(e.proj, [i \in 1..Len(e.loc) |-> Unlocal(e.loc[i], ref)], e.tol)>>,
            <<"arguments unchanged", e.same>> >> \o
         (IF e.of = 0 THEN <<>> ELSE << <<"returns the original coordinates", AllNear(e.got, mem[e.of], e.back)>> >>))
    [] e.k = "polyto" ->
         << <<"polygon transformation succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE
         << <<"polygon vertex by vertex", Len(e.got) = Len(e.proj) /\ \A r \in 1..Len(e.got) :
                AllNear(e.got[r], [i \in 1..Len(e.proj[r]) |-> Local(e.proj[r][i], ref)], e.tol)>>,
            <<"arguments unchanged", e.same>> >>)
    [] e.k = "polyfrom" ->
         << <<"polygon transformation succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE
         << <<"polygon projects to the local one plus the reference", Len(e.proj) = Len(e.loc) /\ \A r \in 1..Len(e.loc) :
                AllNear(e.proj[r], [i \in 1..Len(e.loc[r]) |-> Unlocal(e.loc[r][i], ref)], e.tol)>>,
            <<"arguments unchanged", e.same>> >>)
    [] e.k = "box" ->
         << <<"box succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE
         << <<"polygon runs round the box", RoundBox(e.ring, e.b)>>,
            <<"box and polygon convert without loss", e.back = <<e.b[1], e.b[3], e.b[2], e.b[4]>> >> >>)
    [] e.k = "bounds" ->
         << <<"box succeeds", Ok(e)>> >> \o (IF ~Ok(e) THEN <<>> ELSE << <<"bounding box of the polygon", e.got = Box(Flat(e.P))>> >>)
    [] OTHER -> <<>>
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ ref' = (IF e.k = "new" THEN e.ref ELSE ref)
       /\ mem' = Append(mem, IF e.k = "to" THEN e.ext ELSE <<>>)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
