----------------------------- MODULE Magnitudes ------------------------------
(* Conversion of local to moment magnitudes (Edwards et al. 2010).  A type is *)
(* a sequence of characters, a magnitude is k / den with den 10 or 100, and a *)
(* result is in 1e-8.                                                         *)
EXTENDS Common
Local(ty) == \E i \in 1..Len(ty) : ty[i] \in {"l", "L"}
Moment(ty) == ~Local(ty) /\ \E i \in 1..Len(ty) : ty[i] \in {"w", "W"}
CONVERTED == <<"M", "w", "_", "c", "o", "n", "v", "e", "r", "t", "e", "d">>
(* 1.02 + 0.472 m + 0.0491 m^2                                                *)
Edwards(k, den) == IF den = 10 THEN 102000000 + 4720000 * k + 49100 * k * k
                   ELSE 102000000 + 472000 * k + 491 * k * k
Kind(ty) == IF Local(ty) THEN "convert" ELSE IF Moment(ty) THEN "keep" ELSE "other"
=============================================================================
