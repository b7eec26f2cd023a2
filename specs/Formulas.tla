------------------------------ MODULE Formulas ------------------------------
(* Published closed forms behind the exported helper functions.               *)
(* Magnitudes are integers in a unit u, b-values are given by the ratio       *)
(* r = 10^(b u) = <<p, q>>, angles are integers in degrees.                   *)
EXTENDS Common
RECURSIVE RPow(_, _)
RPow(r, k) == IF k < 0 THEN RInv(RPow(r, -k)) ELSE IF k = 0 THEN <<1, 1>> ELSE RMul(r, RPow(r, k - 1))
(* --- laws                                                                    *)
Line(n, r, k) == RMul(n, RPow(r, -k))                   \* n at k = 0
Cdf(r, k) == RSub(<<1, 1>>, RPow(r, -k))                \* k units from mc to the upper end of the bin
Distinct(m) == SetToSortSeq(Range(m), LAMBDA a, b : a < b)
(* --- Shi and Bolt: (deviation / (ln 10 b^2))^2 in units squared              *)
Mean(m, w) == RDiv(RSumSeq([i \in 1..Len(m) |-> RMul(w[i], Int2R(m[i]))]), RSumSeq(w))
PopVar(m, w) == LET mu == TLCEval(Mean(m, w)) IN
  RDiv(RSumSeq([i \in 1..Len(m) |-> LET d == RSub(Int2R(m[i]), mu) IN RMul(w[i], RMul(d, d))]), RSumSeq(w))
Defined(w) == w # <<>> /\ RLt(<<1, 1>>, RSumSeq(w))
ShiBolt2(m, w) == RDiv(PopVar(m, w), RSub(RSumSeq(w), <<1, 1>>))
(* --- great circles                                                           *)
Turn(a) == LET x == a % 360 IN IF x > 180 THEN 360 - x ELSE x
Apart(p, q) == Turn(p.lon - q.lon)
(* pairs whose angle is a whole number of degrees by elementary geometry       *)
Plain(p, q) == Apart(p, q) \in {0, 180} \/ (p.lat = 0 /\ q.lat = 0) \/ Abs(p.lat) = 90 \/ Abs(q.lat) = 90
               \/ (Apart(p, q) = 90 /\ (p.lat = 0 \/ q.lat = 0))
Angle(p, q) ==
  CASE Apart(p, q) = 0 -> Abs(p.lat - q.lat)
    [] Apart(p, q) = 180 -> 180 - Abs(p.lat + q.lat)
    [] p.lat = 0 /\ q.lat = 0 -> Apart(p, q)
    [] Abs(p.lat) = 90 -> Abs(p.lat - q.lat)
    [] Abs(q.lat) = 90 -> Abs(p.lat - q.lat)
    [] OTHER -> 90
(* others lie strictly between the same pair on one and on opposite meridians  *)
Nearest(p, q) == Abs(p.lat - q.lat)
Farthest(p, q) == 180 - Abs(p.lat + q.lat)
(* squares of sines and cosines of some angles; cosine of the difference of    *)
(* longitudes; then the cosine of the angle when the latitudes are +-equal     *)
Sin2(a) == CASE Abs(a) = 0 -> <<0, 1>> [] Abs(a) = 30 -> <<1, 4>> [] Abs(a) = 45 -> <<1, 2>> [] Abs(a) = 60 -> <<3, 4>> [] Abs(a) = 90 -> <<1, 1>>
Cos1(a) == CASE a = 0 -> <<1, 1>> [] a = 60 -> <<1, 2>> [] a = 90 -> <<0, 1>> [] a = 120 -> <<-1, 2>> [] a = 180 -> <<-1, 1>>
HasCos(p, q) == Abs(p.lat) = Abs(q.lat) /\ Abs(p.lat) \in {0, 30, 45, 60, 90} /\ Apart(p, q) \in {0, 60, 90, 120, 180}
CosAngle(p, q) == LET s == RMul(Int2R(IF p.lat * q.lat < 0 THEN -1 ELSE 1), Sin2(p.lat))
                  IN RAdd(s, RMul(RSub(<<1, 1>>, Sin2(p.lat)), Cos1(Apart(p, q))))
=============================================================================
