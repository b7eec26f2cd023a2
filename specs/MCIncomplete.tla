---------------------------- MODULE MCIncomplete ----------------------------
(* A seismic network that sees the events one by one and remembers those of   *)
(* the last moments, against the statement of what is hidden.                 *)
EXTENDS Incomplete
CONSTANTS Mags, MaxN, MaxT, Windows
VARIABLES m, t, w, k, recent, mask, phase
vars == <<m, t, w, k, recent, mask, phase>>
Init == /\ m = <<>> /\ t = <<>> /\ w \in Windows /\ k = 1 /\ recent = {} /\ mask = <<>> /\ phase = "build"
Add == /\ phase = "build" /\ Len(m) < MaxN
       /\ \E x \in Mags, s \in 0..MaxT : m' = Append(m, x) /\ t' = Append(t, s)
       /\ UNCHANGED <<w, k, recent, mask, phase>>
Start == phase = "build" /\ phase' = "scan" /\ UNCHANGED <<m, t, w, k, recent, mask>>
(* recent: events not older than the window; a network forgets the smaller    *)
(* ones that came before a larger one                                         *)
See == /\ phase = "scan" /\ k <= Len(m)
       /\ LET i == InTime(t)[k]
              near == {j \in recent : t[i] - t[j] < w}
          IN /\ mask' = Append(mask, ~\E j \in near : Larger(m[j], m[i]))
             /\ recent' = {j \in near : ~(Larger(m[i], m[j]) \/ m[j] = m[i] \/ m[j] = NaNV)} \cup {i}
       /\ k' = k + 1 /\ UNCHANGED <<m, t, w, phase>>
Finish == phase = "scan" /\ k > Len(m) /\ phase' = "done" /\ UNCHANGED <<m, t, w, k, recent, mask>>
Next == Add \/ Start \/ See \/ Finish
Spec == Init /\ [][Next]_vars
ScanIsSpec == phase = "done" => mask = Mask(m, t, w)
KeepsInOrder == phase = "done" => LET q == Kept(m, t, w) IN \A a, b \in 1..Len(q) : a < b => Before(t, q[a], q[b])
WiderHidesMore == phase = "done" => \A v \in Windows : v >= w => Hidden(m, t, w) \subseteq Hidden(m, t, v)
Idempotent == phase = "done" => LET q == Kept(m, t, w) IN Hidden(Pick(m, q), Pick(t, q), w) = {}
LargestKept == phase = "done" => \A i \in 1..Len(m) : (\A j \in 1..Len(m) : ~Larger(m[j], m[i])) => i \notin Hidden(m, t, w)
NoWindowNoLoss == (phase = "done" /\ w = 0) => Hidden(m, t, w) = {}
FirstKept == (phase = "done" /\ Len(m) > 0) => InTime(t)[1] \notin Hidden(m, t, w)
ListingIndifferent == phase = "done" => LET o == InTime(t) IN Mask(Pick(m, o), Pick(t, o), w) = Mask(m, t, w)
Emit == phase = "done" => Case([m |-> m, t |-> t, w |-> w])
=============================================================================
