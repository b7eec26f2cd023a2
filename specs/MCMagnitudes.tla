---------------------------- MODULE MCMagnitudes -----------------------------
(* A conversion that reads the type letter by letter and evaluates the        *)
(* polynomial by differences (one hundredth of a magnitude at a time),        *)
(* against the formula.                                                       *)
EXTENDS Magnitudes
CONSTANTS Letters, MaxLen, Mags
VARIABLES ty, k, pos, seen, val, j, phase
vars == <<ty, k, pos, seen, val, j, phase>>
Init == ty \in SeqsBetween(Letters, 1, MaxLen) /\ k \in Mags /\ pos = 1 /\ seen = "other" /\ val = 102000000 /\ j = 0 /\ phase = "type"
Read == /\ phase = "type" /\ pos <= Len(ty) /\ pos' = pos + 1
        /\ seen' = (IF ty[pos] \in {"l", "L"} THEN "convert" ELSE IF ty[pos] \in {"w", "W"} /\ seen = "other" THEN "keep" ELSE seen)
        /\ UNCHANGED <<ty, k, val, j, phase>>
Go == phase = "type" /\ pos > Len(ty) /\ phase' = (IF seen = "convert" THEN "value" ELSE "done") /\ UNCHANGED <<ty, k, pos, seen, val, j>>
(* (j+1)^2 - j^2 = 2j + 1                                                     *)
Up == phase = "value" /\ j < k /\ val' = val + 472000 + 491 * (2 * j + 1) /\ j' = j + 1 /\ UNCHANGED <<ty, k, pos, seen, phase>>
Down == phase = "value" /\ j > k /\ val' = val - 472000 - 491 * (2 * j - 1) /\ j' = j - 1 /\ UNCHANGED <<ty, k, pos, seen, phase>>
End == phase = "value" /\ j = k /\ phase' = "done" /\ UNCHANGED <<ty, k, pos, seen, val, j>>
Next == Read \/ Go \/ Up \/ Down \/ End
Spec == Init /\ [][Next]_vars
KindIsSpec == phase = "done" => seen = Kind(ty)
ValueIsSpec == (phase = "done" /\ seen = "convert") => val = Edwards(k, 100)
UnitsAgree == (phase = "done" /\ k % 10 = 0) => Edwards(k, 100) = Edwards(k \div 10, 10)
(* larger local magnitudes are larger moment magnitudes, and never less than  *)
(* half as much apart                                                         *)
Monotone == phase = "value" => (Edwards(k + 1, 100) > Edwards(k, 100))
Idempotent == Kind(CONVERTED) = "keep"
LetterCase == phase = "done" => Kind([i \in 1..Len(ty) |-> CASE ty[i] = "L" -> "l" [] ty[i] = "l" -> "L" [] ty[i] = "W" -> "w" [] ty[i] = "w" -> "W" [] OTHER -> ty[i]]) = Kind(ty)
Emit == phase = "done" => Case([ty |-> ty, k |-> k])
=============================================================================
