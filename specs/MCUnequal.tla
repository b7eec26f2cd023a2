----------------------------- MODULE MCUnequal ------------------------------
(* All small catalogues for some tables: which events are complete, and how   *)
(* the sub-catalogues combine.                                                *)
EXTENDS Unequal
CONSTANTS Tables, Ms, Ys, MaxN
VARIABLES T, E, k, terms
vars == <<T, E, k, terms>>
Init == T \in Tables /\ E = <<>> /\ k = 0 /\ terms = <<>>
Add == k = 0 /\ Len(E) < MaxN /\ \E m \in Ms, y \in Ys : E' = Append(E, [m |-> m, y |-> y]) /\ UNCHANGED <<T, k, terms>>
Start == k = 0 /\ KSUsed(T, E) # <<>> /\ k' = 1 /\ UNCHANGED <<T, E, terms>>
(* one sub-catalogue after the other: mean excess, weighted by its share      *)
Sub == SelectSeq(E, LAMBDA ev : Interval(T, ev.y) = k /\ ev.m > T[k].m)
Step == /\ k \in 1..Len(T)
        /\ terms' = (IF Sub = <<>> THEN terms
                     ELSE LET mean == RSub(Rat(SumSeq([i \in 1..Len(Sub) |-> Sub[i].m]), Len(Sub)), Int2R(T[k].m))
                          IN Append(terms, RMul(Rat(Len(Sub), Len(KSUsed(T, E))), mean)))
        /\ k' = k + 1 /\ UNCHANGED <<T, E>>
Spec == Init /\ [][Add \/ Start \/ Step]_vars
Combined == k = Len(T) + 1 => REq(RSumSeq(terms), KSMean(T, E)) /\ RSumSeq(terms)[1] > 0
(* both methods agree on the complete events                                  *)
SameEvents == \A i \in 1..Len(E) : KSUses(T, E[i]) = WUses(T, E[i])
OrderFree == k = 1 => REq(KSMean(T, Reverse(E)), KSMean(T, E))
(* the intervals tile the time since the first start                          *)
Tiles == SumSeq([j \in 1..Len(T) |-> Duration(T, 2020, j)]) = 2020 - T[Len(T)].y
(* larger events and later events stay complete                               *)
Monotone == \A i \in 1..Len(E) : WUses(T, E[i]) => WUses(T, [m |-> E[i].m + 2, y |-> E[i].y]) /\ WUses(T, [m |-> E[i].m, y |-> E[i].y + 1])
(* the score of Weichert changes sign once                                    *)
Even == \A i \in 1..Len(E) : E[i].m % 2 = 0
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
W(p, q, nb) == [i \in 1..nb |-> Pow(p, i - 1) * Pow(q, nb - i)]
OneRoot == (k = 1 /\ Even) => LET c == TLCEval(BinCounts(T, E, 4)) IN
             \A a, b \in 1..4 : a < b => (Score(T, c, 2020, W(a, 4, 4)) <= 0 => Score(T, c, 2020, W(b, 4, 4)) <= 0)
Emit == k = 1 => Case([t |-> T, e |-> E])
=============================================================================
