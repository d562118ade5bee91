-------------------------------- MODULE Line --------------------------------
(* What a rasterised line is.  A line from s to e, both sequences of integers; *)
(* cell k (from 0) of the line is a sequence of integers.                      *)
EXTENDS Wide

Delta(s, e, a) == Abs(e[a] - s[a])
Dir(s, e, a)   == Sgn(e[a] - s[a])
Longest(s, e)  == MaxSeq([a \in 1..Len(s) |-> Delta(s, e, a)])

\* How far cell c, the k-th of the line, trails the ideal segment on axis a, in units of 1/Longest.
Trail(s, e, k, c, a) ==
    LET moved == (c[a] - s[a]) * Dir(s, e, a) IN
    IF Dir(s, e, a) = 0 THEN (IF c[a] = s[a] THEN 0 ELSE Huge)
    ELSE IF moved < 0 \/ moved > Delta(s, e, a) THEN Huge
    ELSE DiffP(Prod(k, Delta(s, e, a)), Prod(moved, Longest(s, e)))

\* The half-open strip around the ideal; of width one cell, so it determines the line.
InStrip(n, d, t) == t <= d /\ t >= -d /\ t * (n + 1) < n * d /\ t * (n + 1) >= -d
OnCourse(s, e, k, c) ==
    /\ Len(c) = Len(s)
    /\ \A a \in 1..Len(s) :
          IF Longest(s, e) = 0 THEN c[a] = s[a] ELSE InStrip(Len(s), Longest(s, e), Trail(s, e, k, c, a))

\* From c to the next cell d.
StepOk(s, e, c, d) ==
    \A a \in 1..Len(s) :
        LET step == (d[a] - c[a]) * Dir(s, e, a) IN
        /\ Dir(s, e, a) = 0 => d[a] = c[a]
        /\ Dir(s, e, a) # 0 => step \in (IF Delta(s, e, a) = Longest(s, e) THEN {1} ELSE {0, 1})
=============================================================================
