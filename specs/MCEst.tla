------------------------------- MODULE MCEst -------------------------------
(* The estimators as a stepwise machine (filter, order, scan, finish) over    *)
(* all small samples; the stepwise result must equal the declarative one and  *)
(* satisfy the relations between estimators.                                  *)
EXTENDS Estimators
CONSTANTS Vals, Mcs, D, Dmcs, MaxLen, Kinds
VARIABLES c, phase, sel, stack, out
vars == <<c, phase, sel, stack, out>>
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init ==
  /\ \E n \in 0..MaxLen :
     \E m \in [1..n -> Vals], mc \in Mcs, dmc \in Dmcs, k \in Kinds, p \in Perms(n), ht \in BOOLEAN :
       /\ (~ht \/ k \in {"classic", "utsu", "aclassic"}) => p = [i \in 1..n |-> i]
       /\ k \in AKinds \ {"aclassic"} => ht
       /\ k \notin PairKinds => ~ht /\ dmc = D
       /\ c = [kind |-> k, m |-> m, mc |-> mc, D |-> D, dmc |-> dmc, hast |-> ht, t |-> p,
               hasw |-> FALSE, w |-> <<>>, wd |-> 1, hasb |-> TRUE, hasref |-> FALSE, hassf |-> FALSE, bt |-> Max2(D, 1)]
  /\ phase = "scan" /\ sel = <<>> /\ stack = <<>> /\ out = <<>>
(* events are visited in the order used: listing order, or time order         *)
Pos(k) == IF c.kind \in PairKinds /\ c.hast THEN CHOOSE i \in 1..Len(c.m) : c.t[i] = k ELSE k
Visited == Len(sel)
(* one event arrives.  stack: for b-more-positive the events still waiting    *)
(* for a larger successor; an arriving event closes every waiting event it    *)
(* exceeds by the cutoff.                                                     *)
VARIABLE pos
Arrive ==
  /\ phase = "scan" /\ pos <= Len(c.m)
  /\ pos' = pos + 1
  /\ LET i == Pos(pos) IN
     IF ~IsComplete(c, c.m[i]) THEN UNCHANGED <<sel, stack, out>>
     ELSE /\ sel' = Append(sel, i)
          /\ CASE c.kind \in {"bpos", "apos"} ->
                    /\ stack' = <<i>>
                    /\ out' = IF stack # <<>> /\ Reaches(c, c.m[i] - c.m[stack[1]])
                              THEN Append(out, <<stack[1], i>>) ELSE out
               [] c.kind \in {"bmore", "amore"} ->
                    LET closed == SelectSeq(stack, LAMBDA j : Reaches(c, c.m[i] - c.m[j])) IN
                    /\ stack' = Append(SelectSeq(stack, LAMBDA j : ~Reaches(c, c.m[i] - c.m[j])), i)
                    /\ out' = out \o [q \in 1..Len(closed) |-> <<closed[q], i>>]
               [] OTHER -> out' = Append(out, <<i, i>>) /\ UNCHANGED stack
  /\ UNCHANGED <<c, phase>>
Finish == /\ phase = "scan" /\ pos > Len(c.m) /\ phase' = "done" /\ UNCHANGED <<c, sel, stack, out, pos>>
MCInit == Init /\ pos = 1
Next == Arrive \/ Finish
Spec == MCInit /\ [][Next]_<<vars, pos>>

Done == phase = "done"
DeclPairs == LET u == Used(c) p == Pairs(c, u) IN {<<u[p[j][1]], u[p[j][2]]>> : j \in 1..Len(p)}
StepwiseAgrees == Done =>
  /\ sel = Used(c)
  /\ c.kind \in PairKinds => ToSet(out) = DeclPairs
  /\ c.kind \in {"bpos", "apos"} => [j \in 1..Len(out) |-> out[j][2]] = ResIdx(c)
  /\ c.kind \notin PairKinds => ResIdx(c) = sel
InSample == Done => \A j \in 1..ResN(c) : IsComplete(c, c.m[ResIdx(c)[j]])
NothingLost == Done /\ c.kind \notin PairKinds => ResN(c) = Cardinality({i \in 1..Len(c.m) : IsComplete(c, c.m[i])})
(* every consecutive positive pair is also a first-larger pair                *)
PositiveWithinMore == Done /\ c.kind = "bpos" =>
  LET cm == [c EXCEPT !.kind = "bmore"] u == Used(cm) IN
  ToSet(ConsecutivePairs(c, u)) \subseteq ToSet(MorePairs(cm, u))
(* with times, the listing order is irrelevant: sort the listing first        *)
OrderIrrelevant == Done /\ c.hast /\ c.kind \in PairKinds =>
  LET n == Len(c.m)
      s == SortedPerm(c.t)
      cs == [c EXCEPT !.m = Pick(c.m, s), !.t = [i \in 1..n |-> i]]
  IN /\ Pick(s, ResIdx(cs)) = ResIdx(c)
     /\ ResMags(cs) = ResMags(c)
     /\ IF c.kind \in AKinds THEN REq(ValueA(cs), ValueA(c)) ELSE REq(ValueB(cs), ValueB(c))
(* shifting all magnitudes and mc changes nothing                             *)
ShiftIrrelevant == Done =>
  LET n == Len(c.m)
      cs == [c EXCEPT !.m = [i \in 1..n |-> IF c.m[i] = NaNV THEN NaNV ELSE c.m[i] + 3], !.mc = c.mc + 3]
  IN /\ ResIdx(cs) = ResIdx(c)
     /\ IF c.kind \in AKinds THEN REq(ValueA(cs), ValueA(c)) ELSE REq(ValueB(cs), ValueB(c))
(* unit weights change nothing; doubling the weight of an event = repeating it*)
WeightMeaning == Done /\ c.kind \in {"classic", "utsu"} =>
  LET n == Len(c.m)
      one == [c EXCEPT !.hasw = TRUE, !.w = [i \in 1..n |-> 1]]
      two == [c EXCEPT !.hasw = TRUE, !.w = [i \in 1..n |-> IF i = 1 THEN 2 ELSE 1]]
      rep == [c EXCEPT !.m = IF n = 0 THEN <<>> ELSE <<c.m[1]>> \o c.m]
  IN /\ REq(ValueB(one), ValueB(c))
     /\ n > 0 => REq(ValueB(two), ValueB(rep))
     /\ StdDefined(one) => REq(StdSq(one), StdSq(c))
     /\ (n > 0 /\ StdDefined(two)) => REq(StdSq(two), StdSq(rep))
(* the a-positive estimate is at least the number of pairs                    *)
APosAtLeastPairs == Done /\ c.kind = "apos" /\ RawA(c)[2] # 0 => RLe(Int2R(Len(out)), RawA(c))
Emit == Done => Case([kind |-> c.kind, m |-> c.m, mc |-> c.mc, dmc |-> c.dmc, hast |-> c.hast, t |-> c.t])
=============================================================================
