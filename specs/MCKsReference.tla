--------------------------- MODULE MCKsReference -----------------------------
(* The distribution of the distance computed bin by bin: in every bin, any    *)
(* set of the events not yet placed falls there; what is carried on is the    *)
(* set of placed events and the largest gap so far, with the mass of all ways *)
(* to get there.  Against the enumeration of all samples.                     *)
EXTENDS KsReference
CONSTANTS Ratios, Weightings, Bins
VARIABLES q, w, K, k, carry
vars == <<q, w, K, k, carry>>
N == Len(w)
W(S) == SumSeq([i \in 1..N |-> IF i \in S THEN w[i] ELSE 0])
Init == /\ q \in Ratios /\ w \in Weightings /\ K \in Bins /\ k = 0
        /\ carry = {<<{}, 0, 1>>}                              \* placed, gap so far, mass
(* from, to: different ways may have equal mass, so they are kept apart       *)
Ways == UNION {{<<x[1] \cup S, Max2(x[2], Abs(W(x[1] \cup S) * Pow(q[1], K) - W(1..N) * Law(q[1], q[2], K, k))), x[3] * Pow(Mass1(q[1], q[2], K, k), Cardinality(S)), x[1], x[2]>> : S \in SUBSET (1..N \ x[1])} : x \in carry}
Place == /\ k < K
         /\ carry' = (LET ways == Ways IN {<<z[1], z[2], FoldSet(LAMBDA y, acc : IF y[1] = z[1] /\ y[2] = z[2] THEN acc + y[3] ELSE acc, 0, ways)>> : z \in ways})
         /\ k' = k + 1 /\ UNCHANGED <<q, w, K>>
Next == Place
Spec == Init /\ [][Next]_vars
Done == k = K
T == Table(q[1], q[2], K, w)
Full == {x \in carry : x[1] = 1..N}
(* bin by bin = enumeration                                                   *)
BinsAgree == Done => LET t == TLCEval(T) IN {<<x[2], x[3]>> : x \in Full} = {<<d, MassAt(t, d)>> : d \in Distances(t)}
(* nothing is lost: complete samples and those with an event in the tail      *)
MassKept == Done => /\ FoldSet(LAMBDA x, acc : acc + x[3], 0, Full) + TailMass(q[1], q[2], K, N) = Total(q[1], K, N)
                    /\ FoldSet(LAMBDA x, acc : acc + x[3] * Pow(Pow(q[2], K), N - Cardinality(x[1])), 0, carry) = Total(q[1], K, N)
(* a single event is as far away as the larger share beside it                *)
OneEvent == (Done /\ N = 1) => \A v \in 0..K - 1 : Dist(q[1], q[2], K, <<v>>, w) =
              w[1] * Max2(IF v = 0 THEN 0 ELSE Law(q[1], q[2], K, v - 1), Pow(q[1], K) - Law(q[1], q[2], K, v))
(* weights matter only relative to each other; the order of the events not at *)
(* all                                                                        *)
Scaled == (Done /\ N <= 2) => LET t == TLCEval(T)
                                  t2 == TLCEval(Table(q[1], q[2], K, [i \in 1..N |-> 2 * w[i]]))
                              IN \A v \in DOMAIN t : t2[v] = <<2 * t[v][1], t[v][2]>>
Mirror == Done => LET t == TLCEval(T)
                      r == TLCEval(Table(q[1], q[2], K, [i \in 1..N |-> w[N + 1 - i]]))
                  IN \A v \in DOMAIN t : r[[i \in 1..N |-> v[N + 1 - i]]] = t[v]
Emit == Done => Case([q |-> q, w |-> w, K |-> K])
=============================================================================
