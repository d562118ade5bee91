------------------------------ MODULE Polygon ------------------------------
(* Polygons given as vertex lists, in the plane (and boxes in any dimension). *)
EXTENDS Hull

Edge(poly, j) == <<poly[j], poly[(j % Len(poly)) + 1]>>

OnSegment(q, a, b) ==
    /\ Cross(a, b, q) = 0
    /\ Min2(a[1], b[1]) <= q[1] /\ q[1] <= Max2(a[1], b[1])
    /\ Min2(a[2], b[2]) <= q[2] /\ q[2] <= Max2(a[2], b[2])
OnBoundary(q, poly) == \E j \in 1..Len(poly) : OnSegment(q, Edge(poly, j)[1], Edge(poly, j)[2])

Lower(a, b) == IF a[2] <= b[2] THEN a ELSE b
Upper(a, b) == IF a[2] <= b[2] THEN b ELSE a
\* The ray from q towards +x meets the edge ab, of which only the upper end counts.
CrossesRight(q, a, b) == LET lo == Lower(a, b) hi == Upper(a, b) IN
    q[2] > lo[2] /\ q[2] <= hi[2] /\ Cross(lo, hi, q) >= 0
CrossesLeft(q, a, b)  == LET lo == Lower(a, b) hi == Upper(a, b) IN
    q[2] > lo[2] /\ q[2] <= hi[2] /\ Cross(lo, hi, q) <= 0
Flip(p) == <<p[2], p[1]>>
CrossesUp(q, a, b)    == CrossesRight(Flip(q), Flip(a), Flip(b))

OddMany(poly, Test(_)) == Cardinality({ j \in 1..Len(poly) : Test(j) }) % 2 = 1
\* The even-odd rule.
Inside(q, poly) == OddMany(poly, LAMBDA j : CrossesRight(q, Edge(poly, j)[1], Edge(poly, j)[2]))

\* Off the boundary it does not matter in which direction the ray goes.
AnyRay(q, poly) == ~OnBoundary(q, poly) =>
    /\ Inside(q, poly) <=> OddMany(poly, LAMBDA j : CrossesLeft(q, Edge(poly, j)[1], Edge(poly, j)[2]))
    /\ Inside(q, poly) <=> OddMany(poly, LAMBDA j : CrossesUp(q, Edge(poly, j)[1], Edge(poly, j)[2]))

\* The two pieces of a polygon cut along the chord from vertex i to vertex j > i.
PieceA(poly, i, j) == SubSeq(poly, i, j)
PieceB(poly, i, j) == SubSeq(poly, j, Len(poly)) \o SubSeq(poly, 1, i)
Rotated(poly, k)   == SubSeq(poly, k + 1, Len(poly)) \o SubSeq(poly, 1, k)

\* ext is a sequence of <<low, high>>, one per axis.
Tight(poly, ext) ==
    /\ poly # <<>> /\ Len(ext) = Len(poly[1])
    /\ \A a \in 1..Len(ext) :
          /\ Len(ext[a]) = 2
          /\ \A j \in 1..Len(poly) : ext[a][1] <= poly[j][a] /\ poly[j][a] <= ext[a][2]
          /\ \E j \in 1..Len(poly) : poly[j][a] = ext[a][1]
          /\ \E j \in 1..Len(poly) : poly[j][a] = ext[a][2]
WithinExt(q, ext) == \A a \in 1..Len(ext) : ext[a][1] <= q[a] /\ q[a] <= ext[a][2]
=============================================================================
