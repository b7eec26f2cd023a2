------------------------------ MODULE Spatial -------------------------------
(* Selection by a polygon, local coordinates and bounding boxes.              *)
(*                                                                            *)
(* Plane points <<x, y>> are integers in a binary fraction of a degree, so    *)
(* that the geometry of the model is exactly the geometry of the floats.      *)
(* Projected and geographic coordinates of the transformer are pairs <<h, u>> *)
(* of h * 10^8 + u small units, 0 <= u < 10^8.  The projection itself is an   *)
(* uninterpreted function whose values come with the recorded calls.          *)
EXTENDS Common

(* ------------------------------------------------ polygons                  *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Between(x, a, b) == Min2(a, b) <= x /\ x <= Max2(a, b)
OnSegment(p, a, b) == Cross(a, b, p) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
Succ(P, i) == IF i = Len(P) THEN P[1] ELSE P[i + 1]
OnBorder(P, p) == \E i \in 1..Len(P) : OnSegment(p, P[i], Succ(P, i))
(* the ray from p in the direction of growing x passes the edge a-b           *)
Straddles(p, a, b) == (a[2] > p[2]) # (b[2] > p[2])
RayHits(p, a, b) == Straddles(p, a, b) /\ (IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0)
Crossings(P, p) == Cardinality({i \in 1..Len(P) : RayHits(p, P[i], Succ(P, i))})
IsPlace(p) == p[1] # NaNV /\ p[2] # NaNV
Inside(P, p) == IsPlace(p) /\ (OnBorder(P, p) \/ Crossings(P, p) % 2 = 1)
Selected(P, pts) == Positions(pts, LAMBDA i : Inside(P, pts[i]))

(* simple polygons: the domain of the statement                               *)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Meets(a, b, c, d) ==
  LET s1 == Sgn(Cross(a, b, c)) s2 == Sgn(Cross(a, b, d)) s3 == Sgn(Cross(c, d, a)) s4 == Sgn(Cross(c, d, b))
  IN (s1 * s2 < 0 /\ s3 * s4 < 0) \/ OnSegment(c, a, b) \/ OnSegment(d, a, b) \/ OnSegment(a, c, d) \/ OnSegment(b, c, d)
Simple(P) ==
  /\ Len(P) >= 3
  /\ \A i, j \in 1..Len(P) : i < j => P[i] # P[j]
  /\ \A i, j \in 1..Len(P) : i < j =>
       IF j = i + 1 THEN ~OnSegment(Succ(P, j), P[i], P[j]) /\ ~OnSegment(P[i], P[j], Succ(P, j))
       ELSE IF i = 1 /\ j = Len(P) THEN ~OnSegment(P[j], P[1], P[2]) /\ ~OnSegment(P[2], P[j], P[1])
       ELSE ~Meets(P[i], Succ(P, i), P[j], Succ(P, j))

(* ------------------------------------------------ bounding boxes            *)
Corners(b) == {<<x, y>> : x \in {b[1], b[2]}, y \in {b[3], b[4]}}
Box(V) == LET X == {V[i][1] : i \in 1..Len(V)}  Y == {V[i][2] : i \in 1..Len(V)}
          IN <<Min(X), Min(Y), Max(X), Max(Y)>>
(* a closed ring that runs once round the corners of the box                  *)
RoundBox(R, b) ==
  /\ Len(R) = 5 /\ R[1] = R[5] /\ {R[i] : i \in 1..4} = Corners(b)
  /\ \A i \in 1..4 : R[i][1] = R[i + 1][1] \/ R[i][2] = R[i + 1][2]

(* ------------------------------------------------ local coordinates         *)
RADIX == 100000000
PNorm(h, u) == <<h + u \div RADIX, u % RADIX>>
PAdd(a, b) == PNorm(a[1] + b[1], a[2] + b[2])
PSub(a, b) == PNorm(a[1] - b[1], a[2] - b[2])
PNear(a, b, tol) == LET d == PSub(a, b) IN (d[1] = 0 /\ d[2] <= tol) \/ (d[1] = -1 /\ d[2] >= RADIX - tol)
NoAlt == <<>>
(* x, y of the projected point less those of the reference; the altitude less *)
(* the reference altitude when there is one                                   *)
Local(pr, ref) == <<PSub(pr[1], ref[1]), PSub(pr[2], ref[2]), IF pr[3] = NoAlt THEN NoAlt ELSE PSub(pr[3], ref[3])>>
Unlocal(lc, ref) == <<PAdd(lc[1], ref[1]), PAdd(lc[2], ref[2]), IF lc[3] = NoAlt THEN NoAlt ELSE PAdd(lc[3], ref[3])>>
CNear(a, b, tol) ==
  /\ Len(a) = 3 /\ Len(b) = 3 /\ PNear(a[1], b[1], tol) /\ PNear(a[2], b[2], tol)
  /\ (IF a[3] = NoAlt \/ b[3] = NoAlt THEN a[3] = b[3] ELSE PNear(a[3], b[3], tol))
AllNear(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CNear(s[i], t[i], tol)
=============================================================================
