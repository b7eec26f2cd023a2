------------------------------- MODULE MCCons -------------------------------
(* Exhaustive model of the consistency decision (C02).  The sample grows one  *)
(* value at a time, as a catalogue does; the decision must follow the sample. *)
EXTENDS Binning
CONSTANTS Vals, W, Big, MaxLen
VARIABLES sample, ok, okl
vars == <<sample, ok, okl>>
Init == sample = <<>> /\ ok = TRUE /\ okl = FALSE
(* incremental decision: differences to the first finite value suffice        *)
Ref == Finite(sample)
Add(v) == /\ Len(sample) < MaxLen
          /\ sample' = Append(sample, v)
          /\ LET off == IF Ref = <<>> \/ v = NaNV THEN 0 ELSE v - Ref[1] IN
               /\ ok' = (ok /\ off % W = 0)
               /\ okl' = (okl \/ off % Big # 0)
Next == \E v \in Vals \cup {NaNV} : Add(v)
Spec == Init /\ [][Next]_vars
Decision == /\ Consistent(sample, W, Big, FALSE) = ok
            /\ Consistent(sample, W, Big, TRUE) = (ok /\ okl)
ShiftInvariant == \A d \in {-3, 1, 7} :
   LET sh == [i \in 1..Len(sample) |-> IF sample[i] = NaNV THEN NaNV ELSE sample[i] + d]
   IN \A lg \in BOOLEAN : Consistent(sh, W, Big, lg) = Consistent(sample, W, Big, lg)
OrderInvariant == \A lg \in BOOLEAN : Consistent(Reverse(sample), W, Big, lg) = Consistent(sample, W, Big, lg)
(* width zero: trying every coarser grid = trying the finest                  *)
ZeroWidth == /\ Unbinned(sample, W, TRUE) = ~(\E k \in {1, 2, 4} : AllMultiples(Finite(sample), W * k))
             /\ Unbinned(sample, W, FALSE)
             /\ Unbinned(sample, W, TRUE) = ~Consistent(sample, W, Big, FALSE)
Emit == Len(sample) >= 1 /\ Finite(sample) # <<>> => Case([m |-> sample])
=============================================================================
