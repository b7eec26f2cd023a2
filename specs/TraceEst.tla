------------------------------ MODULE TraceEst ------------------------------
(* Conformance of recorded estimator sessions with Estimators.  A session is  *)
(* the history of one estimator object; state = has it been calculated.       *)
EXTENDS Estimators, TraceCommon
VARIABLES sid, l, calc
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ calc = FALSE

Aligned(c, e) ==
  <<
    <<"indices of the events used, in order", Same(e.idx, ResIdx(c))>>,
    <<"reported magnitudes belong to the indices", Same(e.mags, ResMags(c))>>,
    <<"number of events used", e.n = ResN(c)>>,
    <<"reported weights belong to the indices",
        ~c.hasw \/ c.kind \in AKinds \/ Same(e.wts, Pick(c.w, ResIdx(c)))>>,
    <<"reported times belong to the indices",
        ~(c.hast /\ c.kind \in PairKinds) \/ Same(e.times, Pick(c.t, ResIdx(c)))>>,
    <<"arguments unchanged", e.kept>>
  >>
(* a sample whose events all lie at the reference magnitude has no finite      *)
(* b-value; rounding may turn the infinite value into an arbitrarily large one*)
OkB(c, v) == Undetermined(c) \/ (IF ValueB(c) = INF THEN v[2] = 0 ELSE REq(v, ValueB(c)))
Values(c, e) ==
  IF c.kind \in AKinds
  THEN << <<"a-value", REq(e.val, ValueA(c))>>, <<"value equals a_value", e.same>> >>
  ELSE << <<"b-value", OkB(c, e.val)>>,
          <<"value, beta, std_beta agree with b_value, std", e.same>>,
          <<"Shi-Bolt uncertainty",
             e.std = <<9, 0>> \/ ~StdDefined(c) \/ ValueB(c)[2] = 0 \/ ValueB(c)[1] <= 0 \/ REq(e.std, StdSq(c))>> >>

CalcClauses(e) ==
  LET c == e.c IN
  IF Refused(c) THEN Failing(<< <<"invalid arguments are refused", e.err # "">> >>)
  ELSE IF e.err # "" THEN (IF Undetermined(c) THEN {} ELSE {"valid calculation does not fail"})
  ELSE (IF e.judge \in {"sample", "all"} THEN Failing(Aligned(c, e)) ELSE {})
       \cup (IF e.judge \in {"value", "all"} THEN Failing(Values(c, e)) ELSE {})
       \cup Failing(<< <<"result equals that of a fresh estimator", e.fresh>> >>)

Clauses(st, e) ==
  CASE e.op = "calc" -> CalcClauses(e)
    [] e.op = "read" -> Failing(<< <<"reading before calculating is an error", st \/ e.err # "">> >>)
    [] e.op = "fn" ->     \* estimate_a / estimate_b wrapper
         IF Refused(e.c) THEN Failing(<< <<"invalid arguments are refused", e.err # "">> >>)
         ELSE IF e.err # "" THEN (IF Undetermined(e.c) THEN {} ELSE {"valid calculation does not fail"})
         ELSE Failing(<< <<"function returns the estimator's value", e.same>>,
                         <<"function's b-value or a-value",
                            IF e.c.kind \in AKinds THEN REq(e.val, ValueA(e.c)) ELSE OkB(e.c, e.val)>>,
                         <<"function returns the sample size", e.n = -1 \/ e.n = ResN(e.c)>> >>)
    [] e.op = "next" -> Failing(<<
          <<"search does not fail", e.err = "">>,
          <<"first later sufficiently larger event (0 = none)",
             (e.err # "") \/ Same(e.res, LET u == Used(e.c) IN [k \in 1..Len(u) |-> NextLarger(e.c, u, k)])>> >>)
    [] OTHER -> {"unknown event"}

TraceNext == /\ l <= Len(Ev)
             /\ Report(sid, l, Clauses(calc, Ev[l]))
             /\ calc' = (calc \/ Ev[l].op = "calc")
             /\ l' = l + 1
             /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_<<sid, l, calc>>
=============================================================================
