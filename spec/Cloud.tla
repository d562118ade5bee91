------------------------------- MODULE Cloud -------------------------------
(* Point clouds: what their operations mean.  The machines that carry them   *)
(* out are in Scan, Lex, Voxel and Rigid.                                    *)
EXTENDS Wide

-----------------------------------------------------------------------------
(* Linear nearest-neighbour search: one action per candidate looked at.      *)

\* The declarative meaning: r is <<>> or <<the earliest point at minimal distance>>.
FirstNearest(pts, q, r) ==
    IF pts = <<>> THEN r = <<>>
    ELSE /\ Len(r) = 1
         /\ LET dist == [i \in 1..Len(pts) |-> DistSq(pts[i], q)]
                best == MinSeq(dist)
                at   == CHOOSE i \in 1..Len(pts) : dist[i] = best /\ \A j \in 1..(i - 1) : dist[j] > best
            IN r[1] = pts[at]

-----------------------------------------------------------------------------
(* Lexicographic sorting.  A coordinate is an integer code: code \div 2 is   *)
(* its place in the order (so 2k and 2k+1 are equal but distinguishable      *)
(* values, such as the two zeros); codes from NaNBase on are NaNs.           *)

NaNBase == 1000000
IsNaN(c) == c >= NaNBase
HasNaN(pts) == \E j \in 1..Len(pts) : \E a \in 1..Len(pts[j]) : IsNaN(pts[j][a])

Key(p) == [a \in 1..Len(p) |-> p[a] \div 2]
Leq(p, r) == LexLeq(Key(p), Key(r))
Sorted(pts) == \A j \in 1..(Len(pts) - 1) : Leq(pts[j], pts[j + 1])

\* r is an acceptable result: declined exactly on NaN, else a sorted permutation.
SortResult(pts, ok, r) ==
    IF HasNaN(pts) THEN ~ok
    ELSE ok /\ SameBag(pts, r) /\ Sorted(r)

\* The same for a cloud of points that are pairwise different in the order, by runs.
SortedRuns(pts, reps, runs, counts) ==
    /\ Len(runs) = Len(pts) /\ Len(counts) = Len(pts)
    /\ \A j \in 1..(Len(runs) - 1) : Leq(runs[j], runs[j + 1])
    /\ { <<runs[j], counts[j]>> : j \in 1..Len(runs) } = { <<pts[j], reps[j]>> : j \in 1..Len(pts) }

-----------------------------------------------------------------------------
(* Voxel downsampling and centroids.  Voxel k on an axis is the half-open    *)
(* interval [k*s, (k+1)*s), for every integer k.                              *)

Floor(x, s) == x \div s                       \* rounds towards minus infinity
VoxelOf(p, s) == [a \in 1..Len(p) |-> Floor(p[a], s)]

\* A cloud is given as a list of points and how often each occurs in a row.
SumOn(pts, reps, a) == SumSeq([j \in 1..Len(pts) |-> reps[j] * pts[j][a]])

\* r is the mean of a non-empty cloud, where r is given in units of 1/quant to within tol such units.
IsMean(pts, reps, r, quant, tol) ==
    \A n \in {SumSeq(reps)} : \A a \in 1..Len(r) :
       IF quant < 2000
       THEN /\ Abs(r[a]) <= Huge \div n
            /\ Abs(r[a] * n - quant * SumOn(pts, reps, a)) <= n * tol
       ELSE /\ Abs(r[a]) < Limb
            /\ SNear(SMul(r[a], n), SMul(SumOn(pts, reps, a), quant), SInt(n * tol))

\* res (a list of points in units of 1/quant) is an acceptable downsampling of the cloud.
Downsampled(pts, reps, s, res, quant, tol) ==
    LET by    == [j \in 1..Len(pts) |-> VoxelOf(pts[j], s)]
        vox   == { by[j] : j \in 1..Len(pts) }
        into  == [j \in 1..Len(res) |-> VoxelOf(res[j], s * quant)]
    IN /\ Len(res) = Cardinality(vox)
       /\ { into[j] : j \in 1..Len(res) } = vox
       /\ \A j \in 1..Len(res) :
             LET members == SelectSeq([k \in 1..Len(pts) |-> <<by[k], pts[k], reps[k]>>], LAMBDA m : m[1] = into[j])
             IN IsMean([k \in 1..Len(members) |-> members[k][2]], [k \in 1..Len(members) |-> members[k][3]], res[j], quant, tol)

\* A cloud with a point in the same places (offs) of every voxel of a box: count results in distinct voxels,
\* from lo to hi, at places from dlo to dhi in units of 1/60.
BoxSize(side) == FoldLeft(LAMBDA m, x : m * x, 1, side)
DownsampledBox(e) ==
    /\ e.count = BoxSize(e.sides) /\ e.distinct = e.count
    /\ \A a \in 1..Len(e.sides) :
          /\ e.lo[a] = e.from[a] /\ e.hi[a] = e.from[a] + e.sides[a] - 1
          /\ \A m \in {(60 * SumSeq([j \in 1..Len(e.offs) |-> e.offs[j][a]])) \div Len(e.offs)} :
                Abs(e.dlo[a] - m) <= e.tol /\ Abs(e.dhi[a] - m) <= e.tol

\* Whole coordinates: the mean is rounded towards zero.
IsWholeMean(pts, r) == \A a \in 1..Len(r) : r[a] = DivTrunc(SumSeq([j \in 1..Len(pts) |-> pts[j][a]]), Len(pts))
DownsampledWhole(pts, s, res) ==
    LET by    == [j \in 1..Len(pts) |-> VoxelOf(pts[j], s)]
        vox   == { by[j] : j \in 1..Len(pts) }
        into  == [j \in 1..Len(res) |-> VoxelOf(res[j], s)]
    IN /\ Len(res) = Cardinality(vox)
       /\ { into[j] : j \in 1..Len(res) } = vox
       /\ \A j \in 1..Len(res) :
             LET members == SelectSeq([k \in 1..Len(pts) |-> <<by[k], pts[k]>>], LAMBDA m : m[1] = into[j])
             IN IsWholeMean([k \in 1..Len(members) |-> members[k][2]], res[j])

-----------------------------------------------------------------------------
(* Rigid motions with rational rotations: the matrix is m / w for an integer  *)
(* matrix m (a tuple of rows) and an integer w > 0.                           *)

Dot(u, v) == SumSeq([a \in 1..Len(u) |-> u[a] * v[a]])
Row(m, a) == m[a]
Col(m, b) == [a \in 1..Len(m) |-> m[a][b]]
MatVec(m, v) == [a \in 1..Len(m) |-> Dot(m[a], v)]

Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])

\* By expansion along the first row.
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE SumSeq([b \in 1..Len(m) |->
                  IF m[1][b] = 0 THEN 0
                  ELSE (IF b % 2 = 1 THEN 1 ELSE -1) * m[1][b]
                       * Det([a \in 1..(Len(m) - 1) |-> [c \in 1..(Len(m) - 1) |-> m[a + 1][IF c < b THEN c ELSE c + 1]]])])
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)

\* m / w is a rotation: orthonormal columns, determinant one.
Proper(m, w) ==
    /\ w > 0
    /\ \A b, c \in 1..Len(m) : Dot(Col(m, b), Col(m, c)) = IF b = c THEN w * w ELSE 0
    /\ Det(m) = Power(w, Len(m))

\* The rotation of a complex number (c, s) and of a quaternion (a, b, c, d), in integers.
OfComplex(z) == << <<z[1] * z[1] - z[2] * z[2], -2 * z[1] * z[2]>>, <<2 * z[1] * z[2], z[1] * z[1] - z[2] * z[2]>> >>
OfQuaternion(h) ==
    LET a == h[1] b == h[2] c == h[3] d == h[4] IN
    << << a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c) >>,
       << 2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b) >>,
       << 2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d >> >>
Norm(h) == Dot(h, h)

\* r, in units of 1/quant to within tol, is the point p rotated by m/w and then moved by t.
IsMoved(m, w, t, p, r, quant, tol) ==
    LET rot == MatVec(m, p) IN
    \A a \in 1..Len(p) : /\ Abs(r[a]) <= Huge \div w
                         /\ Abs(r[a] * w - quant * (rot[a] + w * t[a])) <= w * tol

=============================================================================
