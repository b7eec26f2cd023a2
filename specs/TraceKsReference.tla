-------------------------- MODULE TraceKsReference ---------------------------
(* Conformance of recorded tests.  e.m: events as bins above the completeness *)
(* e.w: their weights, e.q = <<a, b>>, e.K: tail bin, e.n: references asked   *)
(* for, e.hist: <<distance, how often>> in units of 1 / (W a^K), e.other: how *)
(* many are no multiple of that unit, e.ge: how often p counts (p times n).   *)
EXTENDS KsReference, TraceCommon
VARIABLES sid, l
vars == <<sid, l>>
Ev == Sessions[sid].ev
TraceInit == sid \in 1..Len(Sessions) /\ l = 1
Ones(n) == [i \in 1..n |-> 1]
Permutes(v, u) == \A k \in {v[i] : i \in 1..Len(v)} \cup {u[i] : i \in 1..Len(u)} : Cardinality({i \in 1..Len(v) : v[i] = k}) = Cardinality({i \in 1..Len(u) : u[i] = k})
Alike(v, u, w) == \A k \in {v[i] : i \in 1..Len(v)} \cup {u[i] : i \in 1..Len(u)} : SumSeq([i \in 1..Len(v) |-> IF v[i] = k THEN w[i] ELSE 0]) = SumSeq([i \in 1..Len(u) |-> IF u[i] = k THEN w[i] ELSE 0])
(* how often a reference is at least as far as the sample v                   *)
PClause(t, q, K, v, w, n, ge) ==
  LET T == Total(q[1], K, Len(v))
      tail == Share(TailMass(q[1], q[2], K, Len(v)), T) + 1
      d == Dist(q[1], q[2], K, v, w)
      above == MassIf(t, LAMBDA x : x > d)
      same == FoldSet(LAMBDA u, acc : IF t[u][1] = d /\ Alike(u, v, w) THEN acc + t[u][2] ELSE acc, 0, DOMAIN t)
  IN Within(ge, n, Share(above + same, T), Share(MassFrom(t, d), T) + 1 + tail)
Degenerate(v) == \A i \in 1..Len(v) : v[i] = v[1]
TestChecks(e) ==
  << <<"the test does not fail", e.err = "">>, <<"arguments unchanged", e.same>> >> \o
  (IF e.err # "" THEN <<>>
   ELSE IF Degenerate(e.m) THEN << <<"a sample of one magnitude never passes", e.ge = 0>> >>
   ELSE LET t == TLCEval(Table(e.q[1], e.q[2], e.K, e.w))
            ds == TLCEval(Distances(t))
            T == Total(e.q[1], e.K, Len(e.m))
            tail == Share(TailMass(e.q[1], e.q[2], e.K, Len(e.m)), T) + 1
            seen == [d \in ds |-> SumSeq([i \in 1..Len(e.hist) |-> IF e.hist[i][1] = d THEN e.hist[i][2] ELSE 0])]
            strange == e.other + SumSeq([i \in 1..Len(e.hist) |-> IF e.hist[i][1] \in ds THEN 0 ELSE e.hist[i][2]])
        IN << <<"as many references as asked for", e.nref = e.n>>,
              <<"references are distances of samples of the same size and weights", Within(strange, e.n, 0, tail)>>,
              <<"references are as frequent as the Gutenberg-Richter law makes them", \A d \in ds : LET p == Share(MassAt(t, d), T) IN Within(seen[d], e.n, p, p + 1 + tail)>>,
              <<"p-value is the probability of such a distance", PClause(t, e.q, e.K, e.m, e.w, e.n, e.ge)>> >>)
(* a search: e.m bins above zero, e.cand candidates, e.ges one count each     *)
SearchChecks(e) ==
  << <<"the search does not fail", e.err = "">>, <<"arguments unchanged", e.same>> >> \o
  (IF e.err # "" THEN <<>>
   ELSE << <<"one p-value per candidate", Len(e.ges) = Len(e.cand)>>,
           <<"p-value of every candidate is the probability of such a distance", Len(e.ges) = Len(e.cand) =>
               \A c \in 1..Len(e.cand) : LET v == SelectSeq([i \in 1..Len(e.m) |-> e.m[i] - e.cand[c]], LAMBDA x : x >= 0)
                                             w == Ones(Len(v))
                                         IN IF v = <<>> \/ Degenerate(v) THEN e.ges[c] = 0
                                            ELSE LET t == TLCEval(Table(e.q[1], e.q[2], e.K, w)) IN PClause(t, e.q, e.K, v, w, e.n, e.ges[c])>> >>)
(* p-values of samples of the law, in 1e-4: they average to about one half    *)
AverageChecks(e) == << <<"the test does not fail", e.err = "">>, <<"p-values of Gutenberg-Richter samples average to one half", e.err # "" \/ e.p \in 2400..7800>> >>
Checks(e) == IF e.op = "test" THEN TestChecks(e) ELSE IF e.op = "search" THEN SearchChecks(e) ELSE AverageChecks(e)
TraceNext == /\ l <= Len(Ev) /\ Report(sid, l, Failing(TLCEval(Checks(Ev[l])))) /\ l' = l + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
