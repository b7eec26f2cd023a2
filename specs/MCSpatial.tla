------------------------------ MODULE MCSpatial -----------------------------
(* The scan of the edges of a polygon for each event of a small table, and    *)
(* the row by row selection, against independent statements of what lies      *)
(* inside: winding number, half planes, cutting along a diagonal, symmetry.   *)
(* Vertices are even lattice points, events any lattice point of a window.    *)
EXTENDS Spatial
CONSTANTS G, MaxV
VARIABLES poly, p, k, odd, wind, border, done
vars == <<poly, p, k, odd, wind, border, done>>
Vertex == {<<2 * x, 2 * y>> : x, y \in 0..G}
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Polys == {P \in SeqsBetween(Vertex, 3, MaxV) : (\A i \in 2..Len(P) : Less(P[1], P[i])) /\ Simple(P)}
Window == {<<x, y>> : x, y \in -1..(2 * G + 1)}
Init == /\ poly \in Polys /\ p \in Window /\ k = 1 /\ odd = FALSE /\ wind = 0 /\ border = FALSE /\ done = FALSE
Step == /\ k <= Len(poly)
        /\ LET a == poly[k]  b == Succ(poly, k)  hit == RayHits(p, a, b) IN
             /\ odd' = (odd # hit)
             /\ wind' = wind + (IF ~hit THEN 0 ELSE IF b[2] > a[2] THEN 1 ELSE -1)
             /\ border' = (border \/ OnSegment(p, a, b))
        /\ k' = k + 1 /\ done' = (k = Len(poly)) /\ UNCHANGED <<poly, p>>
Spec == Init /\ [][Step]_vars
In == border \/ odd
Rotated(P) == Append(Tail(P), P[1])
Mirrored(P) == [i \in 1..Len(P) |-> <<P[i][2], P[i][1]>>]
Area2(P) == FoldLeftDomain(LAMBDA acc, i : acc + P[i][1] * Succ(P, i)[2] - Succ(P, i)[1] * P[i][2], 0, P)
Convex(P) == \A i, j \in 1..Len(P) : Sgn(Area2(P)) * Cross(P[i], Succ(P, i), P[j]) >= 0
ScanIsSpec == done => (In <=> Inside(poly, p))
WindingAgrees == (done /\ ~border) => (odd <=> wind # 0) /\ wind \in {-1, 0, 1}
HalfPlanes == (done /\ Convex(poly)) => (In <=> \A i \in 1..Len(poly) : Sgn(Area2(poly)) * Cross(poly[i], Succ(poly, i), p) >= 0)
StartIndifferent == done => (In <=> Inside(Rotated(poly), p))
DirectionIndifferent == done => (In <=> Inside(Reverse(poly), p))
AxesIndifferent == done => (In <=> Inside(Mirrored(poly), <<p[2], p[1]>>))
(* cutting along a diagonal into two simple parts that do not overlap         *)
CutIndifferent ==
  done => \A j \in 3..(Len(poly) - 1) :
    LET A == SubSeq(poly, 1, j)  B == <<poly[1]>> \o SubSeq(poly, j, Len(poly)) IN
      (Simple(A) /\ Simple(B) /\ Abs(Area2(A)) + Abs(Area2(B)) = Abs(Area2(poly)) /\ Sgn(Area2(A)) = Sgn(Area2(B)))
        => (In <=> Inside(A, p) \/ Inside(B, p))
VerticesInside == done => (\A i \in 1..Len(poly) : Inside(poly, poly[i]))
WithinBox == (done /\ In) => LET b == Box(poly) IN Between(p[1], b[1], b[3]) /\ Between(p[2], b[2], b[4])
Emit == (done /\ p = <<-1, -1>>) => Case([P |-> poly, g |-> 2 * G + 1])
=============================================================================
