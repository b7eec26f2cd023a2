------------------------------ MODULE TraceBin ------------------------------
(* Conformance of recorded binning sessions with Binning (C01, C02, C03).     *)
EXTENDS Binning, TraceCommon
VARIABLES sid, l, heap
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ heap = <<>>

(* expected heap after an event *)
Step(h, e) ==
  CASE e.op = "new" -> <<[mags |-> e.m, delta |-> 0]>>
    [] e.op = "bin" -> BinStep(h, e.o, e.w, e.ip)
    [] e.op = "set" -> SetStep(h, e.o, e.w)
    [] OTHER -> h

HeapOK(h, obs) == Len(h) = Len(obs) /\ \A o \in 1..Len(h) : Same(h[o].mags, obs[o].mags)
DeltaOK(h, obs) == Len(h) = Len(obs) /\ \A o \in 1..Len(h) : h[o].delta = obs[o].delta

CatClauses(h, e) ==
  LET h2 == Step(h, e)
      refused == e.op = "bin" /\ BinErr(h, e.o, e.w)
  IN Failing(<<
       <<"refuses a missing or non-positive width, accepts others", (e.err # "") = refused>>,
       <<"magnitudes of every catalogue after the call", HeapOK(h2, e.objs)>>,
       <<"recorded width of every catalogue after the call", DeltaOK(h2, e.objs)>>,
       <<"other columns and row order unchanged", e.rest>>,
       <<"in place returns nothing, otherwise a catalogue",
          (e.op # "bin") \/ (e.err # "") \/ (e.none = e.ip)>> >>)

FnClauses(e) ==
  CASE e.op = "binfn" ->
        IF e.w <= 0 THEN Failing(<< <<"non-positive width refused", e.err = "ValueError">> >>)
        ELSE Failing(<<
          <<"binning a sample does not fail", e.err = "">>,
          <<"nearest multiple of the width, ties up, same order", (e.err # "") \/ Same(e.res, BinSeq(e.m, e.w))>>,
          <<"argument unchanged", e.kept>> >>)
    [] e.op = "test" ->
        IF e.m = <<>> THEN Failing(<< <<"empty sample refused", e.err = "ValueError">> >>)
        ELSE Failing(<<
          <<"check does not fail", e.err = "">>,
          <<"consistency decision", (e.err # "") \/ e.res = IF e.w = 0 THEN Unbinned(e.m, e.big, e.larger) ELSE Consistent(e.m, e.w, e.big, e.larger)>>,
          <<"argument unchanged", e.kept>> >>)
    [] e.op = "fmd" -> Failing(<<
          <<"distribution does not fail", e.err = "">>,
          <<"contiguous bins from smallest to largest", (e.err # "") \/ Same(e.bins, BinPos(FmdBins(e.m, e.w), e.w, e.left))>>,
          <<"counts per bin", (e.err # "") \/ Same(e.counts, FmdCounts(e.m, e.ws, e.w))>>,
          <<"binned magnitudes in input order", (e.err # "") \/ Same(e.binned, BinSeq(e.m, e.w))>>,
          <<"arguments unchanged", e.kept>> >>)
    [] e.op = "cumfmd" -> Failing(<<
          <<"cumulative distribution does not fail", e.err = "">>,
          <<"contiguous bins from smallest to largest", (e.err # "") \/ Same(e.bins, BinPos(CumBins(e.m, e.w), e.w, e.left))>>,
          <<"events at or above each bin", (e.err # "") \/ Same(e.counts, CumCounts(e.m, e.ws, e.w))>>,
          <<"binned magnitudes in input order", (e.err # "") \/ Same(e.binned, IF e.w = 0 THEN e.m ELSE BinSeq(e.m, e.w))>>,
          <<"arguments unchanged", e.kept>> >>)
    [] e.op = "maxc" -> Failing(<<
          <<"maximum curvature does not fail", e.err = "">>,
          <<"centre of the lowest fullest bin plus correction", (e.err # "") \/ e.res = MaxCurv(e.m, e.w, e.corr)>>,
          <<"reported correction", (e.err # "") \/ e.info = e.corr>>,
          <<"catalogue stores the estimate", (e.err # "") \/ e.stored = e.res>>,
          <<"arguments unchanged", e.kept>> >>)
    [] OTHER -> {"unknown event"}

Clauses(h, e) == IF e.op \in {"new", "bin", "set"} THEN CatClauses(h, e) ELSE FnClauses(e)

TraceNext == /\ l <= Len(Ev)
             /\ Report(sid, l, Clauses(heap, Ev[l]))
             /\ heap' = (IF Ev[l].op = "bin" /\ Ev[l].err # "" THEN heap ELSE Step(heap, Ev[l]))
             /\ l' = l + 1
             /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, heap>>
=============================================================================
