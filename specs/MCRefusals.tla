----------------------------- MODULE MCRefusals -----------------------------
(* Two objects that take an array of values, an array of times and an array   *)
(* of weights (only their lengths matter: -1 shorter, 0 equal, 1 longer; 2    *)
(* not given) and a setting that has to be nonnegative, and faulty ways to    *)
(* check them.  The observer's rules are those of the trace specification.    *)
EXTENDS Refusals
CONSTANTS FaultKinds, MaxSteps, Master
VARIABLES fault, kept, calls, bad, hist
vars == <<fault, kept, calls, bad, hist>>
Objs == {1, 2}
Init == fault \in FaultKinds /\ kept = [o \in Objs |-> <<>>] /\ calls = 0 /\ bad = FALSE /\ hist = <<>>
Event(t, w, s) == [fn |-> "BPositiveBValueEstimator", smp |-> <<0, 2>>, w |-> 2, mat |-> <<>>, txt |-> <<>>,
                   lens |-> <<<<"m", 2>>>> \o (IF t = 2 THEN <<>> ELSE <<<<"times", 2 + t>>>>) \o (IF w = 2 THEN <<>> ELSE <<<<"weights", 2 + w>>>>),
                   num |-> <<<<"dmc", s>>, <<"weight", 1>>>>]
Wrong(x) == x \in {-1, 1}
Refuses(o, t, w, s) ==
  CASE fault = "longer" -> t = -1 \/ Wrong(w) \/ s < 0
    [] fault = "shorter" -> t = 1 \/ Wrong(w) \/ s < 0
    [] fault = "one or other" -> (Wrong(w) \/ (w = 2 /\ Wrong(t))) \/ s < 0
    [] fault = "first call" -> calls = 0 /\ (Wrong(t) \/ Wrong(w) \/ s < 0)
    [] fault = "same object" -> kept[o] = <<>> /\ (Wrong(t) \/ Wrong(w) \/ s < 0)
    [] fault = "cancel" -> (t # 2 /\ w # 2 /\ t + w # 0) \/ (t = 2 /\ Wrong(w)) \/ (w = 2 /\ Wrong(t)) \/ s < 0
    [] fault = "zero" -> Wrong(t) \/ Wrong(w) \/ s <= 0
    [] fault = "sign" -> Wrong(t) \/ Wrong(w)
    [] fault = "required" -> t = 2 \/ Wrong(t) \/ Wrong(w) \/ s < 0
    [] OTHER -> Wrong(t) \/ Wrong(w) \/ s < 0
(* what a fitting call afterwards works with: an object that keeps a refused  *)
(* argument does not work as a fresh one                                      *)
Call(o, t, w, s) ==
  LET refuse == Refuses(o, t, w, s)
      unfit == Unfit(Event(t, w, s)) # {}
      later == ~(fault = "keeps" /\ refuse /\ w # 2) /\ ~(fault = "stuck" /\ refuse /\ kept[o] # <<>>)
  IN /\ bad' = (bad \/ refuse # unfit \/ ~later)
     /\ kept' = (IF refuse THEN kept ELSE [kept EXCEPT ![o] = <<t, w, s>>])
     /\ calls' = calls + 1
     /\ hist' = Append(hist, <<o, t, w, s>>) /\ UNCHANGED fault
Next == \/ Len(hist) < MaxSteps /\ \E o \in Objs, t, w \in {-1, 0, 1, 2}, s \in {-1, 0, 1} : Call(o, t, w, s)
        \/ Len(hist) >= MaxSteps /\ hist = SubSeq(Master, 1, Len(hist)) /\ Len(hist) < Len(Master)
           /\ LET c == Master[Len(hist) + 1] IN Call(c[1], c[2], c[3], c[4])
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => ~bad
MasterShowsAll == (hist = Master /\ fault # "none") => bad
(* the rules for matrices: a symmetric, an upper and a lower one describe the *)
(* same neighbours; a relabelled matrix is square and stays mirrored          *)
Mats == [1..3 -> [1..3 -> {0, 1}]]
MatRules == Len(hist) = 0 => \A m \in Mats :
   LET tr == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
       mir == [i \in 1..3 |-> [j \in 1..3 |-> IF m[i][j] + m[j][i] > 0 THEN 1 ELSE 0]]
   IN /\ Neighbours(m, 3) = Neighbours(tr, 3) /\ Neighbours(mir, 3)
      /\ Neighbours([i \in 1..3 |-> [j \in 1..3 |-> IF i < j THEN m[i][j] ELSE 0]], 3)
      /\ ~Neighbours(m, 2) /\ (OneSided(m) /\ Mirrored(m)) = (Entries(m) \subseteq {0})
Emit == (hist # <<>> /\ (bad \/ Len(hist) = MaxSteps)) => Case([f |-> fault, h |-> hist])
=============================================================================
