-------------------------------- MODULE Hull --------------------------------
(* Convex hulls of integer points in the plane, y pointing up.               *)
EXTENDS Cloud

\* Positive when a, b, c turn to the left (counter-clockwise), negative to the right.
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Forward(a, b, c) == (b[1] - a[1]) * (c[1] - b[1]) + (b[2] - a[2]) * (c[2] - b[2])

\* pts is a sequence; all its points lie on one line (or there are none).
Collinear(pts) ==
    \/ pts = <<>>
    \/ LET other == SelectSeq(pts, LAMBDA p : p # pts[1]) IN
       \/ other = <<>>
       \/ \A j \in 1..Len(other) : Cross(pts[1], other[1], other[j]) = 0

NoHull(pts) == Len(pts) < 3 \/ Collinear(pts)

Nxt(h, j) == h[(j % Len(h)) + 1]
Prv(h, j) == h[((j + Len(h) - 2) % Len(h)) + 1]

\* The leftmost point, the lowest of them if there are several.
IsFirst(pts, p) == \A j \in 1..Len(pts) : LexLeq(p, pts[j])

\* Every point is on the right of, or on, the line from each vertex of h to the next.
AllRight(pts, h) == \A j \in 1..Len(h) : LET a == h[j] b == Nxt(h, j) IN
                        \A k \in 1..Len(pts) : Cross(a, b, pts[k]) <= 0

Members(pts, h) == ToSet(h) \subseteq ToSet(pts)
Distinct(h) == Cardinality(ToSet(h)) = Len(h)

\* h is exactly the strict hull of pts: its corners once each, clockwise from the first.
StrictHull(pts, h) ==
    /\ Len(h) >= 3
    /\ Members(pts, h)
    /\ Distinct(h)
    /\ IsFirst(pts, h[1])
    /\ \A j \in 1..Len(h) : Cross(Prv(h, j), h[j], Nxt(h, j)) < 0
    /\ AllRight(pts, h)

\* The same, except that points on the edges may be listed too, in their place.
LooseHull(pts, h) ==
    /\ Len(h) >= 3
    /\ Members(pts, h)
    /\ Distinct(h)
    /\ \A j \in 1..Len(h) : LET turn == Cross(Prv(h, j), h[j], Nxt(h, j)) IN
          \/ turn < 0
          \/ turn = 0 /\ Forward(Prv(h, j), h[j], Nxt(h, j)) > 0
    /\ StrictHull(pts, SelectSeq(h, LAMBDA v : \E j \in 1..Len(h) : h[j] = v /\ Cross(Prv(h, j), v, Nxt(h, j)) < 0))

\* What the two algorithms may answer: some tells whether there is a result, h is the result.
GrahamAnswer(pts, some, h) == IF NoHull(pts) THEN ~some ELSE some /\ StrictHull(pts, h)
JarvisAnswer(pts, some, h) == IF NoHull(pts) THEN ~some ELSE some /\ LooseHull(pts, h)

\* The cloud after downsampling, for clouds whose voxel means are integers.
MeansOf(pts, s) ==
    LET by  == [j \in 1..Len(pts) |-> VoxelOf(pts[j], s)]
        vox == SetToSeq({ by[j] : j \in 1..Len(pts) })
    IN [v \in 1..Len(vox) |->
          LET members == SelectSeq([k \in 1..Len(pts) |-> <<by[k], pts[k]>>], LAMBDA m : m[1] = vox[v])
              n       == Len(members)
              sum(a)  == FoldLeft(LAMBDA acc, m : acc + m[2][a], 0, members)
          IN <<sum(1) \div n, sum(2) \div n>>]
ExactMeans(pts, s) ==
    \A j \in 1..Len(pts) :
        LET members == SelectSeq(pts, LAMBDA m : VoxelOf(m, s) = VoxelOf(pts[j], s))
            n       == Len(members)
        IN \A a \in 1..2 : SumSeq([k \in 1..n |-> members[k][a]]) % n = 0

\* The hull of the points <<t, t * t>> for all t in lo..hi, by t: every point, in clockwise order.
ParabolaHull(lo, hi, h) ==
    /\ hi - lo >= 2
    /\ Len(h) = hi - lo + 1
    /\ \A j \in 1..Len(h) : h[j] \in lo..hi /\ h[(j % Len(h)) + 1] = IF h[j] = lo THEN hi ELSE h[j] - 1
=============================================================================
