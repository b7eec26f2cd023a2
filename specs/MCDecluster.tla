---------------------------- MODULE MCDecluster ----------------------------
(* The implementation: visit the events in order, skip assigned ones, let the *)
(* others claim every unassigned event in their window.                       *)
EXTENDS Decluster
CONSTANTS N, Mags, Times, Places, Props
VARIABLES ev, fs, todo, cluster, flag
vars == <<ev, fs, todo, cluster, flag>>
Evs == [mag : Mags, t : Times, x : Places]
WinOf(m) == [sp |-> m - 1, aft |-> 2 * (m - 1)]
Win == [i \in 1..Len(ev) |-> [sp |-> WinOf(ev[i].mag).sp, aft |-> WinOf(ev[i].mag).aft, fore |-> Portion(WinOf(ev[i].mag).aft, fs[1], fs[2])]]
D == LineMatrix(ev)
Init == /\ ev \in UNION {[1..n -> Evs] : n \in 0..N} /\ fs \in Props
        /\ todo = Order(ev) /\ cluster = [i \in 1..Len(ev) |-> 0] /\ flag = [i \in 1..Len(ev) |-> TRUE]
Visit == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<ev, fs>>
         /\ LET i == todo[1]
                claim == {e \in 1..Len(ev) : cluster[e] = 0 /\ Inside(ev, Win, D, i, e)} IN
            IF cluster[i] # 0 THEN UNCHANGED <<cluster, flag>>
            ELSE /\ cluster' = [e \in 1..Len(ev) |-> IF e \in claim THEN i ELSE cluster[e]]
                 /\ flag' = [e \in 1..Len(ev) |-> IF e = i THEN TRUE ELSE IF e \in claim THEN FALSE ELSE flag[e]]
Spec == Init /\ [][Visit]_vars
Done == todo = <<>>
HeadsAreMainshocks == Done => {e \in 1..Len(ev) : flag[e]} = Heads(ev, Win, D)
EveryEventInOneGroup == Done => \A e \in 1..Len(ev) : cluster[e] # 0 /\ flag[cluster[e]] /\ (flag[e] <=> cluster[e] = e)
GroupsAreWindows == Done => \A e \in 1..Len(ev) : Inside(ev, Win, D, cluster[e], e)
(* row order does not matter: reversing the rows reverses the result          *)
NoTies == \A i, j \in 1..Len(ev) : i # j => <<ev[i].mag, ev[i].t>> # <<ev[j].mag, ev[j].t>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RowOrderFree == (Done /\ NoTies) =>
  {Len(ev) + 1 - e : e \in Heads(ev, Win, D)} = Heads(Rev(ev), Rev(Win), LineMatrix(Rev(ev)))
Never == [](Len(todo) < Len(ev) => \A e \in 1..Len(ev) : cluster[e] # 0 => Inside(ev, Win, D, cluster[e], e))
Emit == (todo = Order(ev) /\ \A i \in 1..Len(ev) : cluster[i] = 0) =>
          Case([f |-> fs, e |-> [i \in 1..Len(ev) |-> <<ev[i].mag, ev[i].t, ev[i].x>>]])
=============================================================================
