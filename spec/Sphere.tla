------------------------------- MODULE Sphere -------------------------------
(* Positions on a sphere, in fixed-point arithmetic.  Angles of positions are  *)
(* integers in units of 2^-15 degree; everything else (sines, coordinates,     *)
(* half angles in radians) in units of 2^-23.                                  *)
EXTENDS Wide

One     == 8388608            \* 2^23
Quarter == 90 * 32768         \* a right angle, in position units
HalfPi  == 13176795           \* a right angle, in radians
\* (pi / 180 / 2^15) * 2^23 * 2^21
ToRad   == 9370165

\* Product of two fixed-point numbers of absolute value at most 2.
FMul(a, b) == LET p == Prod(Abs(a), Abs(b)) IN Sgn(a) * Sgn(b) * (p[1] * 2 + (p[2] + 4194304) \div One)
FSq(a) == FMul(a, a)
\* x / n for a small integer n
FDiv(x, n) == DivRound(x, n)

\* Sine and cosine of x radians, 0 <= x <= pi / 4.
SinSmall(x) == LET s == FSq(x) IN
    FMul(x, One - FMul(FDiv(s, 6), One - FMul(FDiv(s, 20), One - FMul(FDiv(s, 42), One - FDiv(s, 72)))))
CosSmall(x) == LET s == FSq(x) IN
    One - FMul(FDiv(s, 2), One - FMul(FDiv(s, 12), One - FMul(FDiv(s, 30), One - FMul(FDiv(s, 56), One - FDiv(s, 90)))))
\* Of x radians within the first quadrant.
SinFirst(x) == IF 2 * x <= HalfPi THEN SinSmall(x) ELSE CosSmall(HalfPi - x)
CosFirst(x) == IF 2 * x <= HalfPi THEN CosSmall(x) ELSE SinSmall(HalfPi - x)

\* Position units within the first quadrant to radians.
RadOf(u) == LET p == Prod(u, ToRad) IN p[1] * 8 + (p[2] + 1048576) \div 2097152
Quad(u)  == (u \div Quarter) % 4
Rest(u)  == u % Quarter
Sin(u) == LET x == RadOf(Rest(u)) IN
    CASE Quad(u) = 0 -> SinFirst(x)   [] Quad(u) = 1 -> CosFirst(x)
      [] Quad(u) = 2 -> -SinFirst(x)  [] Quad(u) = 3 -> -CosFirst(x)
Cos(u) == Sin(u + Quarter)

-----------------------------------------------------------------------------
(* A position p is <<latitude, longitude>>.                                   *)
Unit(p) == LET c == Cos(p[1]) IN <<FMul(c, Cos(p[2])), FMul(c, Sin(p[2])), Sin(p[1])>>
East(p)  == <<-Sin(p[2]), Cos(p[2]), 0>>
North(p) == LET s == Sin(p[1]) IN <<-FMul(s, Cos(p[2])), -FMul(s, Sin(p[2])), Cos(p[1])>>
Dot(u, v) == FMul(u[1], v[1]) + FMul(u[2], v[2]) + FMul(u[3], v[3])

\* Half the straight distance between two positions on the unit sphere, squared: the square of the
\* sine of half the central angle.
HalfChord(p, q) == LET u == Unit(p) v == Unit(q) IN [a \in 1..3 |-> FDiv(u[a] - v[a], 2)]
ChordSq(p, q) == LET h == HalfChord(p, q) IN FSq(h[1]) + FSq(h[2]) + FSq(h[3])

\* Half the straight distance between p and the antipode of q.
HalfSum(p, q) == LET u == Unit(p) v == Unit(q) IN [a \in 1..3 |-> FDiv(u[a] + v[a], 2)]

\* Is s, a length of at most 1/2, the length of vector h, to within tol?  Both are small numbers, so
\* they are magnified by 2^k before they are squared.
RECURSIVE Magnify(_, _)
Magnify(m, k) == IF k = 20 \/ 4 * m > One THEN k ELSE Magnify(2 * m, k + 1)
Scale(x, k) == x * Pow2(k)
IsLength(s, h, tol) ==
    LET m == Max2(s, MaxSeq([a \in 1..3 |-> Abs(h[a])]))
        k == Magnify(m, 0)
        len2 == FSq(Scale(h[1], k)) + FSq(Scale(h[2], k)) + FSq(Scale(h[3], k))
    IN 4 * m < One =>       \* |s^2 - h^2| = |s - h| (s + h)
          Abs(FSq(Scale(s, k)) - len2) <= FMul(2 * Scale(m, k), Min2(2 * One - 1, Scale(2 * tol, k))) + 8

\* half is half the central angle, in radians: near the central angle of p and q?
\* Squares of sines are compared, which says little about very short distances, and about very long
\* ones; there the lengths are compared.  fine: accurate near the antipode as well.
IsHalfAngle(p, q, half, tol, fine) ==
    /\ 0 <= half /\ half <= HalfPi + 3
    /\ LET x == Min2(half, HalfPi) s == SinFirst(x) IN
       /\ Abs(FSq(s) - ChordSq(p, q)) <= tol
       /\ IsLength(s, HalfChord(p, q), tol)
       /\ fine => IsLength(CosFirst(x), HalfSum(p, q), tol)

\* The direction from p to q in the plane tangent at p, <<east, north>>; its length is the sine of
\* the central angle.
Heading(p, q) == <<Dot(Unit(q), East(p)), Dot(Unit(q), North(p))>>

\* b = <<sine, cosine>> of a bearing: points along the heading?
IsBearing(p, q, b, tol) ==
    LET h == Heading(p, q) IN
    /\ Abs(FMul(h[1], b[2]) - FMul(h[2], b[1])) <= tol
    /\ FMul(h[1], b[1]) + FMul(h[2], b[2]) >= -tol
=============================================================================
