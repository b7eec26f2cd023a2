------------------------------ MODULE MCPlots -------------------------------
(* Drawing the cumulative count event by event, and the laws of what is drawn *)
EXTENDS Plots
CONSTANTS MaxN, Ts, Vs, Weights, Mcs, D
VARIABLES E, mc, line, k, phase
vars == <<E, mc, line, k, phase>>
Init == E = <<>> /\ mc \in Mcs /\ line = <<>> /\ k = 0 /\ phase = "events"
Add == phase = "events" /\ Len(E) < MaxN /\ \E t \in Ts, m \in Vs, w \in Weights : E' = Append(E, [t |-> t, m |-> m, w |-> w]) /\ UNCHANGED <<mc, line, k, phase>>
Start == phase = "events" /\ E # <<>> /\ phase' = "draw" /\ line' = <<<<Min(EventTimes(E)), 0>>>> /\ k' = 1 /\ UNCHANGED <<E, mc>>
InOrder == Pick(E, SortedPerm([i \in 1..Len(E) |-> E[i].t]))
Draw == /\ phase = "draw" /\ k <= Len(E)
        /\ LET e == InOrder[k] IN line' = (IF IsComplete(e, mc, D) THEN Append(line, <<e.t, line[Len(line)][2] + e.w>>) ELSE line)
        /\ k' = k + 1 /\ UNCHANGED <<E, mc, phase>>
Finish == phase = "draw" /\ k = Len(E) + 1 /\ line' = Append(line, <<Max(EventTimes(E)), line[Len(line)][2]>>) /\ phase' = "done" /\ UNCHANGED <<E, mc, k>>
Spec == Init /\ [][Add \/ Start \/ Draw \/ Finish]_vars
X == [i \in 1..Len(line) |-> line[i][1]]
Y == [i \in 1..Len(line) |-> line[i][2]]
Rising == \A i \in 1..(Len(line) - 1) : X[i] <= X[i + 1] /\ Y[i] <= Y[i + 1]
StepsRight == phase = "done" => (\A t \in EventTimes(E) : HeightAt(X, Y, t) = CountTo(E, mc, D, t)) /\ Y[Len(Y)] = CountTotal(E, mc, D)
AnyOrder == phase = "done" => \A t \in Ts : CountTo(E, mc, D, t) = CountTo(Reverse(E), mc, D, t)
NonNaN == Valid(E) # <<>>
(* the last cumulative count is the last bin's, the first one the total       *)
Totals == (phase = "done" /\ NonNaN) => \A w \in 1..3 : LET c == CumShown(E, w, FALSE)  f == FmdShown(E, w, FALSE) IN
            /\ c.x = f.x /\ c.y[1] = SumSeq(Ws(Valid(E))) /\ c.y[Len(c.y)] = f.y[Len(f.y)]
            /\ \A i \in 1..(Len(c.y) - 1) : c.y[i] - c.y[i + 1] = f.y[i]
(* the line starts at the weight of the events in complete bins               *)
Anchor == (phase = "done" /\ NonNaN) => LET f == LineFrom(E, D, mc) IN f # {} /\ ~Border(E, D, mc) =>
            CumShown(E, D, FALSE).y[Min(f)] = SumSeq([i \in 1..Len(E) |-> IF E[i].m # NaNV /\ 2 * BinV(E[i].m, D) >= 2 * mc - D THEN E[i].w ELSE 0])
Sizes == \A p \in 0..3 : \A a, b \in 0..4 : a < b =>
           /\ RLe(DotSize(a, 0, 4, 10, 50, p), DotSize(b, 0, 4, 10, 50, p))
           /\ DotSize(4, 0, 4, 10, 50, p) = Int2R(50) /\ (p # 0 => DotSize(0, 0, 4, 10, 50, p) = Int2R(10))
Windows == (phase = "done" /\ NonNaN) => \A n \in 1..2 : \A place \in {"left", "midpoint", "right"} :
             LET ev == [i \in 1..Len(E) |-> [m |-> E[i].m, mc |-> mc, t |-> E[i].t * 10 + i, x |-> -i]]
                 S == Series(ev, TRUE, D, n, 1, 7) IN
             Len(S.v) > 0 => PlaceAt(place, n) \in 0..(n - 1) /\ PlaceAt(place, n) + Len(S.v) <= Len(S.x)
Emit == phase = "done" => Case([e |-> E, mc |-> mc])
=============================================================================
