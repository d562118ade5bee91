-------------------------------- MODULE Fine --------------------------------
(* The sphere of Sphere.tla in units of 2^-46 instead of 2^-23, for judging   *)
(* double precision results: numbers are the signed pairs of Wide.            *)
EXTENDS Wide

FOne     == <<4194304, 0>>
FHalfPi  == <<6588397, 5312692>>
FQuarter == 90 * 32768
\* pi / 180 / 2^15 * 2^46 * 2^22
FRadian  == <<9370165, 1217770>>

\* The product of two natural numbers up to 2, a = <<high, low>>.
FProd(a, b) ==
    Only({ Only({ LET low == s[2] + t[2] + c[1]
                      x == <<s[1] + t[1] + (low \div Limb), low % Limb>>      \* the cross terms
                      y == (x[1] % 4194304) * 4 + x[2] \div 4194304            \* shifted down by 22
                      l == p[2] * 4 + y
                  IN <<p[1] * 4 + (x[1] \div 4194304) + (l \div Limb), l % Limb>>
                  : <<p, s, t, c>> \in {<<Prod(q[1][1], q[2][1]), Prod(q[1][1], q[2][2]),
                                          Prod(q[1][2], q[2][1]), Prod(q[1][2], q[2][2])>>} })
           : q \in {<<a, b>>} })
FTimes(a, b) ==
    Only({ IF (q[1][1] < 0) = (q[2][1] < 0) THEN FProd(SAbs(q[1]), SAbs(q[2])) ELSE SNeg(FProd(SAbs(q[1]), SAbs(q[2])))
           : q \in {<<a, b>>} })
FSquare(a) == Only({ FProd(q, q) : q \in {SAbs(a)} })
\* A natural number divided by n < 2^12.
FOver(a, n) ==
    Only({ LET r == (q[1] % n) * 4096 + q[2] \div 4096 IN
           <<q[1] \div n, (r \div n) * 4096 + ((r % n) * 4096 + (q[2] % 4096)) \div n>> : q \in {a} })

\* 1 - s/d1 (1 - s/d2 (1 - ...)) by Horner's rule, s natural and at most 1.
Series(s, ds) ==
    Only({ FoldRight(LAMBDA d, acc : SSub(FOne, FProd(FOver(q, d), acc)), ds, FOne) : q \in {s} })
SinTerms == <<6, 20, 42, 72, 110, 156, 210>>
CosTerms == <<2, 12, 30, 56, 90, 132, 182, 240>>
FSinSmall(x) == Only({ FProd(q, Series(FProd(q, q), SinTerms)) : q \in {x} })
FCosSmall(x) == Only({ Series(FProd(q, q), CosTerms) : q \in {x} })
\* Of x radians within the first quadrant.
FAcross(x) == SLess(FHalfPi, SAdd(x, x))
FSinFirst(x) == Only({ IF FAcross(q) THEN FCosSmall(SSub(FHalfPi, q)) ELSE FSinSmall(q) : q \in {x} })
FCosFirst(x) == Only({ IF FAcross(q) THEN FSinSmall(SSub(FHalfPi, q)) ELSE FCosSmall(q) : q \in {x} })

\* Position units within the first quadrant to radians.
FRadOf(u) ==
    Only({ LET s == (p[1][2] + p[2][1]) * 4 + p[2][2] \div 4194304 IN <<p[1][1] * 4 + (s \div Limb), s % Limb>>
           : p \in {<<Prod(u, FRadian[1]), Prod(u, FRadian[2])>>} })
FSin(u) ==
    Only({ LET k == (u \div FQuarter) % 4 IN
           CASE k = 0 -> FSinFirst(x)        [] k = 1 -> FCosFirst(x)
             [] k = 2 -> SNeg(FSinFirst(x))  [] k = 3 -> SNeg(FCosFirst(x))
           : x \in {FRadOf(u % FQuarter)} })
FCos(u) == FSin(u + FQuarter)

-----------------------------------------------------------------------------
\* Sines and cosines of the coordinates of a position <<latitude, longitude>>.
Angles(p) == [sl |-> FSin(p[1]), cl |-> FCos(p[1]), so |-> FSin(p[2]), co |-> FCos(p[2])]
UnitOf(t)  == <<FTimes(t.cl, t.co), FTimes(t.cl, t.so), t.sl>>
EastOf(t)  == <<SNeg(t.so), t.co, SZero>>
NorthOf(t) == <<SNeg(FTimes(t.sl, t.co)), SNeg(FTimes(t.sl, t.so)), t.cl>>
FDot(u, v) == SAdd(SAdd(FTimes(u[1], v[1]), FTimes(u[2], v[2])), FTimes(u[3], v[3]))
FNorm2(h)  == SAdd(SAdd(FSquare(h[1]), FSquare(h[2])), FSquare(h[3]))

\* x times 2^k, k <= 20
Raise(x, k) == <<x[1] * Pow2(k) + x[2] \div Pow2(24 - k), (x[2] % Pow2(24 - k)) * Pow2(k)>>
RECURSIVE Room(_, _)
Room(m, k) == IF k = 20 \/ m[1] >= 1048576 THEN k ELSE Room(Raise(m, 1), k + 1)
SMax(x, y) == IF SLess(x, y) THEN y ELSE x

\* Is the natural number s the length of the vector h to within tol units?  Both at most about 1;
\* magnified when they are small.
IsFineLength(s, h, tol) ==
    \E q \in {<<s, SAbs(h[1]), SAbs(h[2]), SAbs(h[3])>>} :
    \E m \in {SMax(SMax(q[1], q[2]), SMax(q[3], q[4]))} :
    \E k \in {Room(m, 0)} :
    \E len2 \in {FNorm2([a \in 1..3 |-> Raise(q[a + 1], k)])} :
        SNear(FSquare(Raise(q[1], k)), len2, SAdd(FProd(Raise(m, k), Raise(SInt(4 * tol), k)), SInt(16)))

\* half: half the central angle of p and q, in radians.
IsFineHalf(p, q, half, tol) ==
    \E u \in {UnitOf(Angles(p))} : \E v \in {UnitOf(Angles(q))} :
    \E h \in {[a \in 1..3 |-> SShr(SSub(u[a], v[a]), 1)]} :
    \E x \in {IF SLess(FHalfPi, half) THEN FHalfPi ELSE half} :
        IF FAcross(x)
        THEN SNear(FSquare(FCosFirst(x)), FNorm2([a \in 1..3 |-> SShr(SAdd(u[a], v[a]), 1)]), SInt(tol))
        ELSE IsFineLength(FSinFirst(x), h, tol)

\* <<sine, cosine>> of a bearing of k quarter turns and r radians.
FSinCos(k, r) ==
    Only({ CASE k = 0 -> x  [] k = 1 -> <<x[2], SNeg(x[1])>>
             [] k = 2 -> <<SNeg(x[1]), SNeg(x[2])>>  [] OTHER -> <<SNeg(x[2]), x[1]>>
           : x \in {<<FSinFirst(r), FCosFirst(r)>>} })
\* b = <<sine, cosine>> points from p to q.
IsFineBearing(p, q, b, tol) ==
    \E t \in {Angles(p)} : \E v \in {UnitOf(Angles(q))} :
    \E h \in {<<FDot(v, EastOf(t)), FDot(v, NorthOf(t))>>} :
        /\ SNear(FTimes(h[1], b[2]), FTimes(h[2], b[1]), tol)
        /\ SLeq(SNeg(tol), SAdd(FTimes(h[1], b[1]), FTimes(h[2], b[2])))
=============================================================================
