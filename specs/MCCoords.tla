------------------------------ MODULE MCCoords ------------------------------
(* A transformer with a reference point and faulty ones.  The projections are *)
(* small bijections of the integers; the observer's rules are those of the    *)
(* trace specification.                                                       *)
EXTENDS Spatial
CONSTANTS Faults, MaxSteps, Master
VARIABLES fault, ref, want, bad, hist
vars == <<fault, ref, want, bad, hist>>
P0(n) == PNorm(0, n)
PrX(x) == 2 * x + 1
PrY(y) == 3 * y - 2
RpX(x) == x + 5          \* from the projection of the reference to the local one
RpY(y) == y - 7
Given == <<P0(40), P0(-30), P0(11)>>
Conv == <<P0(RpX(40)), P0(RpY(-30)), P0(11)>>
Pts == << <<P0(3), P0(4)>>, <<P0(-6), P0(9)>> >>
Raw == << <<3, 4>>, <<-6, 9>> >>
Proj(i, alt) == <<P0(PrX(Raw[i][1])), P0(PrY(Raw[i][2])), IF alt THEN P0(100 * i) ELSE NoAlt>>
Zero == <<P0(0), P0(0), P0(0)>>
Init == fault \in Faults /\ ref = Zero /\ want = Zero /\ bad = FALSE /\ hist = <<>>
Log(s) == hist' = Append(hist, s) /\ UNCHANGED fault
New(conv) == /\ want' = (IF conv THEN Conv ELSE Given)
             /\ ref' = (CASE fault = "reference not projected" -> Given
                          [] fault = "always projected" -> Conv
                          [] fault = "altitude of reference dropped" -> <<want'[1], want'[2], P0(0)>>
                          [] OTHER -> want')
             /\ UNCHANGED bad /\ Log(IF conv THEN "newref" ELSE "new")
GotTo(i, alt) ==
  LET pr == Proj(i, alt)  g == Local(pr, ref) IN
  CASE fault = "added" -> <<PAdd(pr[1], ref[1]), PAdd(pr[2], ref[2]), g[3]>>
    [] fault = "altitude kept" -> <<g[1], g[2], pr[3]>>
    [] fault = "altitude invented" /\ ~alt -> <<g[1], g[2], PSub(P0(0), ref[3])>>
    [] fault = "axes swapped" -> <<g[2], g[1], g[3]>>
    [] OTHER -> g
ToLocal(i, alt) == /\ bad' = (bad \/ ~CNear(GotTo(i, alt), Local(Proj(i, alt), want), 0))
                   /\ ref' = (IF fault = "reference moved" THEN <<PAdd(ref[1], P0(1)), ref[2], ref[3]>> ELSE ref)
                   /\ UNCHANGED want /\ Log(IF alt THEN "toalt" ELSE "to")
(* what comes back is the projected point, as the model's projection is a     *)
(* bijection                                                                  *)
GotFrom(i, alt) ==
  LET lc == Local(Proj(i, alt), want)  g == Unlocal(lc, ref) IN
  CASE fault = "subtracted back" -> <<PSub(lc[1], ref[1]), PSub(lc[2], ref[2]), g[3]>>
    [] fault = "altitude lost" -> <<g[1], g[2], NoAlt>>
    [] OTHER -> g
FromLocal(i, alt) == /\ bad' = (bad \/ ~CNear(GotFrom(i, alt), Proj(i, alt), 0))
                     /\ UNCHANGED <<ref, want>> /\ Log(IF alt THEN "fromalt" ELSE "from")
PolyTo == /\ LET got == [i \in 1..2 |-> LET g == Local(Proj(i, TRUE), ref) IN
                           CASE fault = "polygon not moved" -> Proj(i, TRUE)
                             [] fault = "polygon altitude kept" -> <<g[1], g[2], Proj(i, TRUE)[3]>>
                             [] fault = "axes swapped" -> <<g[2], g[1], g[3]>>
                             [] OTHER -> g]
             IN bad' = (bad \/ ~AllNear(got, [i \in 1..2 |-> Local(Proj(i, TRUE), want)], 0))
          /\ UNCHANGED <<ref, want>> /\ Log("poly")
Act(s) == CASE s = "new" -> New(FALSE) [] s = "newref" -> New(TRUE) [] s = "to" -> ToLocal(1, FALSE) [] s = "toalt" -> ToLocal(2, TRUE)
            [] s = "from" -> FromLocal(2, FALSE) [] s = "fromalt" -> FromLocal(1, TRUE) [] s = "poly" -> PolyTo
Steps == {"new", "newref", "to", "toalt", "from", "fromalt", "poly"}
OnMaster == hist = SubSeq(Master, 1, Len(hist))
Next == \/ Len(hist) < MaxSteps /\ (~bad \/ OnMaster) /\ \E s \in Steps : Act(s)
        \/ Len(hist) >= MaxSteps /\ OnMaster /\ Len(hist) < Len(Master) /\ \E s \in Steps : s = Master[Len(hist) + 1] /\ Act(s)
Spec == Init /\ [][Next]_vars
NoFalseAlarm == fault = "none" => ~bad
ReferenceKept == fault = "none" => ref = want
RoundTrip == \A i \in 1..2 : \A alt \in BOOLEAN : CNear(Unlocal(Local(Proj(i, alt), want), want), Proj(i, alt), 0)
MasterShowsAll == (hist = Master /\ fault # "none") => bad
Emit == (bad \/ hist = Master) => Case([f |-> fault, h |-> hist])
=============================================================================
