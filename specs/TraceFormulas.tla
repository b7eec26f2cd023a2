--------------------------- MODULE TraceFormulas ----------------------------
(* Conformance of recorded calls of the helper functions.                     *)
EXTENDS Formulas, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
All(n, P(_)) == \A i \in 1..n : P(i)
Micro == 1000000
(* angles are recorded in millionths of a degree                              *)
Deg(x, a) == Abs(x - a * Micro) <= 20
Checks(e) ==
  CASE e.k = "convert" -> << <<"factor between b-value and beta", e.err = "" /\ e.beta = e.x /\ e.b = e.x>>, <<"there and back", e.err = "" /\ e.back = e.x>> >>
    [] e.k = "line" ->
         << <<"line computed", e.err = "" /\ Len(e.y) = Len(e.m)>>,
            <<"Gutenberg-Richter line", e.err # "" \/ Len(e.y) # Len(e.m) \/ All(Len(e.m), LAMBDA i : e.y[i] = Line(Int2R(e.n), e.r, e.m[i] - e.mc))>> >>
    [] e.k = "cdf" ->
         LET x == Distinct(e.m) IN
         << <<"distinct magnitudes in ascending order", e.err = "" /\ e.x = x>>,
            <<"share of the law up to the bin", e.err # "" \/ (Len(e.y) = Len(x) /\ All(Len(x), LAMBDA i : e.y[i] = Cdf(e.r, x[i] + e.D - e.mc)))>> >>
    [] e.k = "shibolt" ->
         << <<"parameter refused", e.known \/ e.err = "ValueError">>,
            <<"deviation computed", ~e.known \/ e.err = "">>,
            <<"Shi-Bolt limit", ~e.known \/ e.err # "" \/ (IF Defined(e.w) THEN e.s2 = ShiBolt2(e.m, e.w) ELSE ~e.finite)>> >>
    [] e.k = "circle" ->
         << <<"distance for every pair", e.err = "" /\ Len(e.a) = Len(e.p) /\ Len(e.c) = Len(e.p)>>,
            <<"great-circle distance", e.err # "" \/ Len(e.a) # Len(e.p) \/ All(Len(e.p), LAMBDA i : Plain(e.p[i], e.t) => Deg(e.a[i], Angle(e.p[i], e.t)))>>,
            <<"great-circle distance off the meridian", e.err # "" \/ Len(e.c) # Len(e.p) \/ All(Len(e.p), LAMBDA i : HasCos(e.p[i], e.t) => e.c[i] = CosAngle(e.p[i], e.t))>>,
            <<"distance within its bounds", e.err # "" \/ Len(e.a) # Len(e.p) \/ All(Len(e.p), LAMBDA i : e.a[i] >= Nearest(e.p[i], e.t) * Micro - 20 /\ e.a[i] <= Farthest(e.p[i], e.t) * Micro + 20)>>,
            <<"same distance seen from the other end, turned and mirrored", e.err # "" \/ All(Len(e.again), LAMBDA j : Len(e.again[j]) = Len(e.a) /\ All(Len(e.a), LAMBDA i : Abs(e.again[j][i] - e.a[i]) <= 20))>>,
            <<"opposite point", e.err # "" \/ (Len(e.opp) = Len(e.a) /\ All(Len(e.a), LAMBDA i : Abs(e.opp[i] - (180 * Micro - e.a[i])) <= 20))>> >>
    [] OTHER -> <<>>
TraceNext ==
  /\ l <= Len(Ev)
  /\ Report(sid, l, Failing(TLCEval(Checks(Ev[l] ) \o << <<"arguments kept", Ev[l].kept>> >>)))
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
