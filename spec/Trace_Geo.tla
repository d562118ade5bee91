------------------------------ MODULE Trace_Geo ------------------------------
(* Validates recorded distances and bearings against Sphere.                   *)
EXTENDS Sphere, Fine, TraceLib

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

Dbl(e) == e.prec = "f64"
Tol(e) == IF Dbl(e) THEN 24 ELSE 80
\* Relative accuracy of numbers scaled to about 2^28.
Rel(e) == IF Dbl(e) THEN 16 ELSE 800
\* Near half a turn a single precision angle has half the digits.
Near(e) == IF ~Dbl(e) /\ 10 * e.half > 9 * HalfPi THEN 200000 ELSE Rel(e)
\* Accuracy of single precision angles goes down near half a turn.
Spread(e, half) == IF Dbl(e) THEN 8 ELSE IF 10 * half > 9 * HalfPi THEN 4000 ELSE 80

\* A bearing of q quarter turns and r radians.
SinCos(q, r) == LET x == Min2(r, HalfPi) s == SinFirst(x) c == CosFirst(x) IN
    CASE q = 0 -> <<s, c>> [] q = 1 -> <<c, -s>> [] q = 2 -> <<-s, -c>> [] OTHER -> <<-c, s>>
Normal(e) == e.below /\ e.q \in 0..3 /\ e.r >= 0 /\ e.r <= HalfPi + 2

\* e.a and e.b are close together: the heading on the flat map, magnified e.k times.
Flat(e) == <<FMul(e.k * (e.b[2] - e.a[2]), Cos(e.b[1])), e.k * (e.b[1] - e.a[1])>>

FineBearing(e) == \E b \in {FSinCos(e.q, IF SLess(FHalfPi, e.fine) THEN FHalfPi ELSE e.fine)} : IsFineBearing(e.a, e.b, b, <<0, 64>>)

Clauses(e) ==
    CASE e.op = "dist" ->       \* half: half the reported central angle
            << <<"G01:the central angle", e.half < Limb /\ IsHalfAngle(e.a, e.b, e.half, Tol(e), Dbl(e))>>,
               <<"G01:the central angle, closely", Dbl(e) /\ e.half >= 0 /\ e.half < Limb => IsFineHalf(e.a, e.b, e.fine, 48)>>,
               <<"G01:zero for the same position", e.a = e.b => e.zero>>,
               <<"G01:never negative", ~e.neg>> >>
      [] e.op = "rel" ->        \* two numbers that are equal to rounding
            << <<"G01:" \o e.what, Abs(e.x) < Huge /\ Abs(e.y) < Huge /\ e.half < Limb /\ Abs(e.x - e.y) <= Near(e) >> >>
      [] e.op = "meridian" ->   \* the angle along a meridian, e.m / e.s position units
            << <<"G01:along a meridian", e.m < Huge /\ Abs(e.m - e.s * e.u) <= Rel(e)>> >>
      [] e.op = "parallel" ->   \* a short way along a parallel
            << <<"G01:along a parallel", e.m < Huge /\ Abs(e.m - FMul(e.s * e.u, Cos(e.lat))) <= 8 + (e.s * e.u) \div (IF Dbl(e) THEN 400000 ELSE 100000)>> >>
      [] e.op = "detour" ->     \* halves of the three angles
            << <<"G01:never more than a detour",
                 e.ac <= HalfPi + 3 /\ e.ac <= e.ab + e.bc + Spread(e, Max2(e.ac, Max2(e.ab, e.bc)))>> >>
      [] e.op = "bear" ->
            << <<"G02:from zero to below a full turn", Normal(e)>>,
               <<"G02:points along the great circle", Normal(e) => IsBearing(e.a, e.b, SinCos(e.q, e.r), Tol(e))>>,
               <<"G02:points along the great circle, closely", Normal(e) /\ Dbl(e) => FineBearing(e)>> >>
      [] e.op = "nearbear" ->
            << <<"G02:from zero to below a full turn", Normal(e)>>,
               <<"G02:points at the neighbour",
                 Normal(e) =>
                   LET f == Flat(e) b == SinCos(e.q, e.r) size == Abs(f[1]) + Abs(f[2]) IN
                   /\ Abs(FMul(f[1], b[2]) - FMul(f[2], b[1])) <= 4 + size \div (IF Dbl(e) THEN 500 ELSE 100)
                   /\ FMul(f[1], b[1]) + FMul(f[2], b[2]) > 0>>,
               <<"G02:points at the neighbour, closely", Normal(e) /\ Dbl(e) => FineBearing(e)>> >>
      [] e.op = "cardinal" ->   \* dev: distance from e.want quarter turns, in units of 1e-12 or 1e-6
            << <<"G02:cardinal directions", Normal(e) /\ e.dev <= 10>> >>
      [] e.op = "mirror" ->     \* bearings and their mirror images add up to a whole number of turns
            << <<"G02:mirrors east and west",
                 LET sum == e.r1 + e.r2 + (e.q1 + e.q2) * HalfPi
                     d   == sum % (4 * HalfPi)
                 IN e.q1 \in 0..3 /\ e.q2 \in 0..3 /\ Min2(d, 4 * HalfPi - d) <= (IF Dbl(e) THEN 6 ELSE 80)>> >>
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
