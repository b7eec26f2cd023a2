------------------------------- MODULE MCBin -------------------------------
(* Exhaustive model of binning histories (C01).                               *)
EXTENDS Binning
CONSTANTS Vals, Widths, MaxLen, MaxOps
VARIABLES heap, hist, m0
vars == <<heap, hist, m0>>
Init == /\ \E m \in SeqsBetween(Vals, 1, MaxLen) : heap = <<[mags |-> m, delta |-> 0]>> /\ m0 = m
        /\ hist = <<>>
Bin == \E o \in 1..Len(heap), w \in Widths \cup {0}, ip \in BOOLEAN :
         /\ heap' = BinStep(heap, o, w, ip)
         /\ hist' = Append(hist, [op |-> "bin", o |-> o, w |-> w, ip |-> ip])
Set == \E o \in 1..Len(heap), w \in Widths :
         /\ heap[o].delta # w
         /\ heap' = SetStep(heap, o, w)
         /\ hist' = Append(hist, [op |-> "set", o |-> o, w |-> w, ip |-> TRUE])
Next == Len(hist) < MaxOps /\ (Bin \/ Set) /\ UNCHANGED m0
Spec == Init /\ [][Next]_vars
(* every value of every object is a multiple of its width or untouched       *)
V == m0
Nearest == \A i \in 1..Len(V), w \in Widths : V[i] # NaNV =>
             LET b == BinV(V[i], w) IN
               /\ b % w = 0
               /\ \A k \in -40..40 : Abs(k * w - V[i]) >= Abs(b - V[i])
               /\ ~(2 * (V[i] - b) >= w)
Idempotent == \A i \in 1..Len(V), w \in Widths : BinV(BinV(V[i], w), w) = BinV(V[i], w)
Monotone == \A i, j \in 1..Len(V), w \in Widths :
             (V[i] # NaNV /\ V[j] # NaNV /\ V[i] <= V[j]) => BinV(V[i], w) <= BinV(V[j], w)
LengthsKept == \A o \in 1..Len(heap) : Len(heap[o].mags) = Len(V)
NaNKept == \A o \in 1..Len(heap), i \in 1..Len(V) :
             (heap[o].mags[i] = NaNV) <=> (V[i] = NaNV)
(* only the target of an in-place operation changes                           *)
CopyUntouched ==
  [][LET e == hist'[Len(hist')] IN
       \A o \in 1..Len(heap) : (o # e.o \/ ~e.ip) => heap'[o] = heap[o]]_vars
Emit == (Len(hist) = MaxOps) => Case([m |-> m0, ops |-> hist])
=============================================================================
