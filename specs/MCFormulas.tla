----------------------------- MODULE MCFormulas -----------------------------
(* Machines that go step by step - along the magnitude axis, through a sample *)
(* with a running mean, and over the sphere with position vectors - against   *)
(* the closed forms.                                                          *)
EXTENDS Formulas
CONSTANTS MaxLen, Vals, Ws, Ratios, MaxK
VARIABLES part, m, w, run, r, k, mass, pt
vars == <<part, m, w, run, r, k, mass, pt>>
ZR == <<0, 1>>
Lattice == [lat : {-90, -45, 0, 45, 90}, lon : {0, 90, 180, 270}]
Init == /\ m = <<>> /\ w = <<>> /\ run = [n |-> ZR, mu |-> ZR, s |-> ZR] /\ k = 0 /\ mass = ZR
        /\ \/ part = "sample" /\ r = <<1, 1>> /\ pt = <<>>
           \/ part = "axis" /\ r \in Ratios /\ pt = <<>>
           \/ part = "sphere" /\ r = <<1, 1>> /\ \E p, q, o \in Lattice : pt = <<p, q, o>>
(* West's update of mean and sum of squares                                   *)
Grow == /\ part = "sample" /\ Len(m) < MaxLen
        /\ \E x \in Vals, a \in Ws :
             LET n2 == RAdd(run.n, a)
                 d == RSub(Int2R(x), run.mu)
                 mu2 == RAdd(run.mu, RDiv(RMul(a, d), n2))
             IN /\ run' = [n |-> n2, mu |-> mu2, s |-> RAdd(run.s, RMul(a, RMul(d, RSub(Int2R(x), mu2))))]
                /\ m' = Append(m, x) /\ w' = Append(w, a)
        /\ UNCHANGED <<part, r, k, mass, pt>>
(* one unit up the axis: the bin takes its share of what is left              *)
Up == /\ part = "axis" /\ k < MaxK
      /\ k' = k + 1 /\ mass' = RAdd(mass, RMul(RSub(<<1, 1>>, mass), RSub(<<1, 1>>, RInv(r))))
      /\ UNCHANGED <<part, m, w, run, r, pt>>
Next == Grow \/ Up
Spec == Init /\ [][Next]_vars
RunningRight == (part = "sample" /\ m # <<>>) => run.mu = Mean(m, w) /\ RDiv(run.s, run.n) = PopVar(m, w)
(* an integer weight is a repetition; order and offset do not matter          *)
Repeat == (part = "sample" /\ m # <<>> /\ w[1] = <<2, 1>>) =>
            LET m2 == <<m[1]>> \o m  w2 == <<<<1, 1>>, <<1, 1>>>> \o Tail(w) IN PopVar(m, w) = PopVar(m2, w2)
Offset == (part = "sample" /\ Defined(w)) =>
            /\ ShiBolt2(m, w) = ShiBolt2([i \in 1..Len(m) |-> m[i] + 7], w)
            /\ ShiBolt2(m, w) = ShiBolt2(Reverse(m), Reverse(w))
            /\ RMul(<<4, 1>>, ShiBolt2(m, w)) = ShiBolt2([i \in 1..Len(m) |-> 2 * m[i]], w)
MassRight == part = "axis" => /\ mass = Cdf(r, k) /\ RLt(mass, <<1, 1>>)
                              /\ RSub(<<5, 1>>, RMul(<<5, 1>>, mass)) = Line(<<5, 1>>, r, k)
                              /\ Line(Line(<<5, 1>>, r, -k), r, k) = <<5, 1>>
(* position vectors with coordinates a + b sqrt 2 over 2, as <<a, b>>         *)
S2(lat) == CASE lat = 0 -> <<0, 0>> [] lat = 90 -> <<2, 0>> [] lat = -90 -> <<-2, 0>> [] lat = 45 -> <<0, 1>> [] lat = -45 -> <<0, -1>>
C2(lat) == CASE lat = 0 -> <<2, 0>> [] Abs(lat) = 90 -> <<0, 0>> [] Abs(lat) = 45 -> <<0, 1>>
Q2(x, y) == <<x[1] * y[1] + 2 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
A2(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sc(c, x) == <<c * x[1], c * x[2]>>
Cx(lon) == CASE lon = 0 -> 1 [] lon = 180 -> -1 [] OTHER -> 0
Cy(lon) == CASE lon = 90 -> 1 [] lon = 270 -> -1 [] OTHER -> 0
Dot(p, q) == A2(Q2(S2(p.lat), S2(q.lat)), A2(Q2(Sc(Cx(p.lon), C2(p.lat)), Sc(Cx(q.lon), C2(q.lat))), Q2(Sc(Cy(p.lon), C2(p.lat)), Sc(Cy(q.lon), C2(q.lat)))))
FromDot(d) == CASE d = <<4, 0>> -> 0 [] d = <<0, 2>> -> 45 [] d = <<2, 0>> -> 60 [] d = <<0, 0>> -> 90 [] d = <<-2, 0>> -> 120 [] d = <<0, -2>> -> 135 [] d = <<-4, 0>> -> 180
CosDeg(a) == CASE a = 0 -> <<1, 1>> [] a = 60 -> <<1, 2>> [] a = 90 -> ZR [] a = 120 -> <<-1, 2>> [] a = 180 -> <<-1, 1>>
Full(p, q) == FromDot(Dot(p, q))
Opp(p) == [lat |-> -p.lat, lon |-> (p.lon + 180) % 360]
Sphere == part = "sphere" => LET p == pt[1]  q == pt[2]  o == pt[3] IN
  /\ Plain(p, q) => Angle(p, q) = Full(p, q)
  /\ Full(p, q) >= Nearest(p, q) /\ Full(p, q) <= Farthest(p, q)
  /\ (HasCos(p, q) => CosAngle(p, q) = CosDeg(Full(p, q)))
  /\ Full(p, q) = Full(q, p) /\ Full(p, Opp(q)) = 180 - Full(p, q)
  /\ Full(p, q) <= Full(p, o) + Full(o, q)
=============================================================================
