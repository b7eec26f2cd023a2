---------------------------- MODULE MCConstruct ----------------------------
(* The stepwise construction: numeric columns, then the time column (all cells*)
(* at once where that is possible, otherwise cell by cell), then text columns.*)
(* Whichever way is taken, every cell becomes what it is on its own.          *)
EXTENDS Construct
CONSTANTS MaxRows
VARIABLES cells, out, phase, k, path
vars == <<cells, out, phase, k, path>>
(* kinds of time cells: plain, with offset (two zones), before the range of    *)
(* nanosecond timestamps, null, no time                                        *)
Kinds == {"plain", "zoneA", "zoneB", "early", "earlyzone", "null", "bad"}
CellOf(x, i) == CASE x = "plain" -> <<0, 700000 + i, 3600, 5, 9999>> [] x = "zoneA" -> <<0, 700000 + i, 60, 0, 120>> [] x = "zoneB" -> <<0, 700000 + i, 0, 1, 0>>
                  [] x = "early" -> <<0, 500000 + i, 7200, 9, 9999>> [] x = "earlyzone" -> <<0, 500000 + i, 10, 0, -60>>
                  [] x = "null" -> <<1, 0, 0, 0, 0>> [] x = "bad" -> <<2, 0, 0, 0, 0>>
Col == [i \in 1..Len(cells) |-> CellOf(cells[i], i)]
Init == /\ cells \in UNION {[1..n -> Kinds] : n \in 0..MaxRows} /\ out = <<>> /\ phase = "start" /\ k = 1 /\ path = "none"
Zone(x) == CASE x = "zoneA" -> 120 [] x = "zoneB" -> 0 [] x = "earlyzone" -> -60 [] OTHER -> 9999
(* at once: no cell out of range, one common distance from UTC                 *)
Uniform == /\ \A i \in 1..Len(cells) : cells[i] \notin {"early", "earlyzone", "bad"}
           /\ \A i, j \in 1..Len(cells) : (cells[i] # "null" /\ cells[j] # "null") => Zone(cells[i]) = Zone(cells[j])
Fast == phase = "start" /\ Uniform /\ out' = [i \in 1..Len(cells) |-> NormTime(Col[i])] /\ phase' = "done" /\ path' = "fast" /\ UNCHANGED <<cells, k>>
Slow == phase = "start" /\ ~Uniform /\ phase' = "slow" /\ path' = "slow" /\ UNCHANGED <<cells, out, k>>
Cell == /\ phase = "slow" /\ k <= Len(cells)
        /\ IF cells[k] = "bad" THEN phase' = "refused" /\ UNCHANGED <<out, k>>
           ELSE out' = Append(out, NormTime(Col[k])) /\ k' = k + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<cells, path>>
End == phase = "slow" /\ k > Len(cells) /\ phase' = "done" /\ UNCHANGED <<cells, out, k, path>>
Next == Fast \/ Slow \/ Cell \/ End
Spec == Init /\ [][Next]_vars
Table == <<[name |-> "time", cells |-> Col]>>
CellwiseResult == phase = "done" => out = NormCol(Table[1])
RefusedIff == (phase = "done" => ~Refused(Table)) /\ (phase = "refused" => Refused(Table))
RowsKept == phase = "done" => Len(out) = Len(cells)
NoZoneLeft == phase = "done" => \A i \in 1..Len(out) : Len(out[i]) = 4
Emit == phase \in {"done", "refused"} => Case([cells |-> cells, path |-> path])
=============================================================================
