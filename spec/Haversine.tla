------------------------------ MODULE Haversine ------------------------------
(* A traveller on a sphere: visits positions one after the other.  The         *)
(* formulas of the library, in fixed point, against the geometry of Sphere.    *)
EXTENDS Sphere

CONSTANTS Grid15,       \* positions are multiples of 15 * Grid15 degrees
          Stops,
          Formula       \* "haversine"; "nocos": forgets a cosine (a defect)

VARIABLES path
Step == 15 * 32768 * Grid15
Positions == { <<a * Step, b * Step>> : a \in (-6 \div Grid15)..(6 \div Grid15), b \in (-13 \div Grid15)..(13 \div Grid15) }

Init == path = <<>>
Visit == Len(path) < Stops /\ \E p \in Positions : path' = Append(path, p)
Spec == Init /\ [][Visit]_path

\* The code's formula for the square of the sine of half the angle.
HalfSinSq(u) == FSq(Sin(u \div 2))
Hav(p, q) == HalfSinSq(q[1] - p[1])
             + FMul(FMul(HalfSinSq(q[2] - p[2]), Cos(p[1])), IF Formula = "haversine" THEN Cos(q[1]) ELSE One)
\* and for the bearing, <<x, y>>
BearX(p, q) == FMul(Sin(q[2] - p[2]), Cos(q[1]))
BearY(p, q) == FMul(Cos(p[1]), Sin(q[1])) - FMul(FMul(Sin(p[1]), Cos(q[1])), Cos(q[2] - p[2]))

Tol == 40
A == path[1]
B == path[2]
C == path[3]
Two == Len(path) >= 2
Three == Len(path) >= 3

IsChord   == Two => Abs(Hav(A, B) - ChordSq(A, B)) <= Tol
InRange   == Two => Hav(A, B) >= -Tol /\ Hav(A, B) <= One + Tol
Symmetric == Two => Abs(Hav(A, B) - Hav(B, A)) <= Tol
Same      == Two => (A = B => Hav(A, B) = 0)
Antipodes == Two => LET opp == <<-A[1], A[2] + 2 * Quarter>> IN Abs(Hav(A, opp) - One) <= Tol
Turns     == Two => Abs(Hav(A, B) - Hav(A, <<B[1], B[2] + 4 * Quarter>>)) <= Tol
IsHeading == Two => LET h == Heading(A, B) IN Abs(BearX(A, B) - h[1]) <= Tol /\ Abs(BearY(A, B) - h[2]) <= Tol
\* East and west are mirrored.
Mirror    == Two => LET m == <<B[1], 2 * A[2] - B[2]>> IN
                /\ Abs(BearX(A, m) + BearX(A, B)) <= Tol
                /\ Abs(BearY(A, m) - BearY(A, B)) <= Tol
\* The chords obey the triangle inequality for angles: cos(ac) >= cos(ab + bc).
CosOf(p, q) == One - 2 * Hav(p, q)
Detour    == Three =>
    LET ab == CosOf(A, B) bc == CosOf(B, C) ac == CosOf(A, C)
        \* sin(ab)^2 sin(bc)^2 >= (cos ab cos bc - cos ac)^2, whenever cos ac < cos ab cos bc
        gap == FMul(ab, bc) - ac
    IN gap > 0 => FSq(gap) <= FMul(One - FSq(ab), One - FSq(bc)) + 8 * Tol
=============================================================================
