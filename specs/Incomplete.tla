----------------------------- MODULE Incomplete -----------------------------
(* Short-term incompleteness: a filter on a time-ordered catalogue.           *)
(* Magnitudes and times are integers, NaNV is a missing magnitude, which is   *)
(* neither larger nor smaller than any other.                                 *)
EXTENDS Common
Larger(a, b) == a # NaNV /\ b # NaNV /\ a > b
(* event j hides event i of the list (m, t) for a window w; simultaneous      *)
(* events come in the order in which they are listed                          *)
Before(t, j, i) == t[j] < t[i] \/ (t[j] = t[i] /\ j < i)
Hides(m, t, w, j, i) == Before(t, j, i) /\ t[i] - t[j] < w /\ Larger(m[j], m[i])
Hidden(m, t, w) == {i \in 1..Len(m) : \E j \in 1..Len(m) : Hides(m, t, w, j, i)}
InTime(t) == SortedPerm(t)
Mask(m, t, w) == LET o == InTime(t)  H == Hidden(m, t, w) IN [k \in 1..Len(m) |-> o[k] \notin H]
Kept(m, t, w) == LET o == InTime(t)  H == Hidden(m, t, w) IN SelectSeq(o, LAMBDA i : i \notin H)
=============================================================================
