--------------------------- MODULE TraceBootstrap ----------------------------
(* Conformance of recorded bootstraps.                                        *)
(* State: resamples drawn so far by seed, <<seed, sample, draws>>.            *)
EXTENDS Bootstrap, TraceCommon
VARIABLES sid, l, known
vars == <<sid, l, known>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1 /\ known = {}
Checks(e) ==
  CASE e.op = "boot" ->
     << <<"bootstrapping does not fail", e.err = "">>, <<"sample unchanged", e.same>> >> \o
     (IF e.err # "" THEN <<>> ELSE
     LET f == TLCEval(Finite(e.est)) IN
     << <<"as many resamples as asked for", Len(e.est) = e.n>>,
        <<"resamples as large as the sample and drawn from it", \A i \in 1..Len(e.draws) : InSample(e.sample, e.draws[i])>>,
        <<"standard deviation of the valid estimates", IF Len(f) < 2 THEN e.nan ELSE ~e.nan /\ SquareNear(e.std, Variance(f))>>,
        <<"same seed, same resamples", e.seed # NOSEED => \A k \in known : (k[1] = e.seed /\ k[2] = e.sample /\ Len(k[3]) = Len(e.draws)) => k[3] = e.draws>>,
        <<"another seed, other resamples", \A k \in known : (k[2] = e.sample /\ (k[1] # e.seed \/ e.seed = NOSEED) /\ e.unlike) => k[3] # e.draws>>,
        <<"every element is as likely", e.unlike => \A x \in 1..Len(e.sample) : LET c == e.counts[x] IN Abs(c - e.n) <= 7 * e.dev>> >>)
    [] e.op = "spread" ->
     << <<"the spread does not fail", e.err = "">>, <<"sample unchanged", e.same>> >> \o
     (IF e.err # "" THEN <<>> ELSE
     << <<"a positive finite spread", e.ok>>,
        <<"beta spreads by ln 10 times the b-value", e.ok => e.ratio \in 1700..3000>>,
        <<"spread is of the size of the estimate's uncertainty", e.ok => e.rel \in e.lo..e.hi>> >>)
TraceNext ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
       /\ Report(sid, l, Failing(TLCEval(Checks(e))))
       /\ known' = (IF e.op = "boot" /\ e.err = "" THEN known \cup {<<e.seed, e.sample, e.draws>>} ELSE known)
  /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
