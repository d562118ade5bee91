--------------------------------- MODULE ICP ---------------------------------
(* Registration of small lattice clouds, exactly.  Coordinates are multiples  *)
(* of 25 N, where N is the number of source points, so that centroids, and    *)
(* rotations by rational angles (3-4-5 triangles and quarter turns), give     *)
(* whole numbers.  Worlds in which every pairing is unambiguous and every     *)
(* best rotation is one of these are followed exactly; the others leave the   *)
(* model ("outside").                                                         *)
EXTENDS Num

CONSTANTS D,            \* dimension, 2 or 3
          N,            \* size of the source
          SrcHi,        \* source coordinates 0..SrcHi, times 25 N
          Extra,        \* number of further target points
          TgtHi,        \* their coordinates, 0..TgtHi times 25 N
          Shifts,       \* displacements along each axis, in multiples of 5 N
          Budgets,      \* iteration budgets
          Absolutes,    \* absolute thresholds, in halves (0: none)
          Intervals,    \* interval thresholds, in halves
          Variant       \* "ok", or a deliberately wrong machine

VARIABLES a, b, budget, abs, int,      \* the request
          p,                           \* the moved source
          k, prev, errs,               \* iteration, previous error (-1: none), all errors
          pairs,                       \* the target points matched last
          phase                        \* "run", "converged", "exhausted", "outside"
vars == <<a, b, budget, abs, int, p, k, prev, errs, pairs, phase>>

Axes == 1..D
Unit == 25 * N
Add(u, v) == [i \in Axes |-> u[i] + v[i]]
Sub(u, v) == [i \in Axes |-> u[i] - v[i]]
Dot(u, v) == IF D = 2 THEN u[1] * v[1] + u[2] * v[2] ELSE u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Mult(R, S) == [i \in Axes |-> [j \in Axes |-> Dot(R[i], [l \in Axes |-> S[l][j]])]]
Transp(R) == [i \in Axes |-> [j \in Axes |-> R[j][i]]]
Det(R) == IF D = 2 THEN R[1][1] * R[2][2] - R[1][2] * R[2][1]
          ELSE R[1][1] * (R[2][2] * R[3][3] - R[2][3] * R[3][2])
             - R[1][2] * (R[2][1] * R[3][3] - R[2][3] * R[3][1])
             + R[1][3] * (R[2][1] * R[3][2] - R[2][2] * R[3][1])
Trace(H) == IF D = 2 THEN H[1][1] + H[2][2] ELSE H[1][1] + H[2][2] + H[3][3]
\* Binds values: TLC evaluates a definition or an argument again at every use, but a set element once.

(* The rotations considered, times 5: in the plane those by the angles of the *)
(* 3-4-5 triangle and quarter turns, in space those about the axes, and the   *)
(* rotations of the cube.                                                     *)
Arms == { <<c, s>> \in (-5..5) \X (-5..5) : c * c + s * s = 25 }
Perms == { f \in [Axes -> Axes] : \A i, j \in Axes : f[i] = f[j] => i = j }
Cube == { R \in { [i \in Axes |-> [j \in Axes |-> IF f[i] = j THEN 5 * s[i] ELSE 0]] :
                      f \in Perms, s \in [Axes -> {1, -1}] } : Det(R) > 0 }
About(x, w) == LET y == (x % 3) + 1 z == ((x + 1) % 3) + 1 IN
               [i \in Axes |-> [j \in Axes |->
                   CASE i = x /\ j = x -> 5   [] i = y /\ j = y -> w[1] [] i = z /\ j = z -> w[1]
                     [] i = y /\ j = z -> -w[2] [] i = z /\ j = y -> w[2] [] OTHER -> 0]]
Turns == IF D = 2 THEN { <<<<w[1], -w[2]>>, <<w[2], w[1]>>>> : w \in Arms }
         ELSE Cube \cup { About(x, w) : x \in Axes, w \in Arms }

Fits(R, v) == \A i \in Axes : Dot(R[i], v) % 5 = 0
Apply(R, v) == [i \in Axes |-> Dot(R[i], v) \div 5]

Total(ps) == FoldLeft(Add, [i \in Axes |-> 0], ps)
Mean(ps) == Only({ [i \in Axes |-> t[i] \div Len(ps)] : t \in {Total(ps)} })
Exact(ps) == \A i \in Axes : Total(ps)[i] % Len(ps) = 0

\* ps turned by R about its centroid, which goes to c.
Moved(ps, R, c) == Only({ [l \in 1..Len(ps) |-> Add(Apply(R, Sub(ps[l], m)), c)] : m \in {Mean(ps)} })
AllFit(ps, R) == \A m \in {Mean(ps)} : \A l \in 1..Len(ps) : Fits(R, Sub(ps[l], m))

Nearest(x) == UNION { { b[j] : j \in { i \in DOMAIN b : ds[i] = MinSeq(ds) } } : ds \in { [j \in DOMAIN b |-> DistSq(x, b[j])] } }
Error(ps, cs) == SumSeq([i \in 1..N |-> DistSq(ps[i], cs[i])])

\* Sum over the pairs of v u^T for deviations u of ps and v of cs, over the common divisor of its entries.
CrossOf(us, vs) == [i \in Axes |-> [j \in Axes |-> SumSeq([l \in 1..Len(us) |-> vs[l][i] * us[l][j]])]]
Around(ps, m) == [l \in 1..Len(ps) |-> Sub(ps[l], m)]
GcdAll(H) == FoldLeft(LAMBDA g, x : Gcd(g, Abs(x)), 0, [x \in 1..(D * D) |-> H[((x - 1) \div D) + 1][((x - 1) % D) + 1]])
Reduced(H) == Only({ [i \in Axes |-> [j \in Axes |-> IF g = 0 THEN 0 ELSE Sgn(H[i][j]) * (Abs(H[i][j]) \div g)]] : g \in {GcdAll(H)} })
Cross(ps, cs) == Only({ Reduced(CrossOf(us, vs)) : us \in { Around(ps, m) : m \in {Mean(ps)} }, vs \in { Around(cs, m) : m \in {Mean(cs)} } })
Small(H) == \A i, j \in Axes : Abs(H[i][j]) <= 60

(* With H the sum of v u^T, R is a best rotation of the u towards the v iff   *)
(* S = H R^T is symmetric and tr(S) I - S has no negative eigenvalue; it is   *)
(* the only one iff they are all positive.  (In the plane the only eigenvalue *)
(* that counts is tr(S).)                                                     *)
IsSym(S) == \A i, j \in Axes : S[i][j] = S[j][i]
Gap(S) == [i \in Axes |-> [j \in Axes |-> (IF i = j THEN Trace(S) ELSE 0) - S[i][j]]]
PosDef(K) == /\ K[1][1] > 0
             /\ K[1][1] * K[2][2] - K[1][2] * K[2][1] > 0
             /\ Det(Reduced(K)) > 0
OnlyBest(S) == IsSym(S) /\ (IF D = 2 THEN Trace(S) > 0 ELSE PosDef(Gap(S)))
BestTurns(H) == { R \in Turns : \E S \in { Reduced(Mult(H, Transp(R))) } : OnlyBest(S) }

Clouds(n, hi) == { [i \in 1..n |-> [x \in Axes |-> Unit * g[i][x]]] : g \in [1..n -> [Axes -> 0..hi]] }
Increasing(c) == \A i \in 1..(Len(c) - 1) : LexLeq(c[i], c[i + 1])

\* The target: the source turned and displaced, in reverse order, and further points.
Init == /\ a \in { c \in Clouds(N, SrcHi) : Increasing(c) }
        /\ \E R \in Turns : \E t \in [Axes -> Shifts] : \E e \in { c \in Clouds(Extra, TgtHi) : Increasing(c) } :
              /\ AllFit(a, R)
              /\ b = Reverse(Moved(a, R, Add(Mean(a), [i \in Axes |-> 5 * N * t[i]]))) \o e
        /\ budget \in Budgets /\ abs \in Absolutes /\ int \in Intervals
        /\ p = a /\ k = 0 /\ prev = -1 /\ errs = <<>> /\ pairs = <<>> /\ phase = "run"

Rule(err) == \/ abs # 0 /\ 2 * err < abs
             \/ IF prev = -1 THEN Variant = "firststop" ELSE 2 * Abs(prev - err) < int

Leave == phase' = "outside" /\ UNCHANGED <<a, b, budget, abs, int, p, k, prev, errs, pairs>>

Iterate ==
    /\ phase = "run"
    /\ \E near \in { [i \in 1..N |-> Nearest(p[i])] } :
       IF \E i \in 1..N : Cardinality(near[i]) > 1 THEN Leave
       ELSE \E cs \in { [i \in 1..N |-> Only(near[i])] } : \E H \in { Cross(p, cs) } :
            IF ~Small(H) \/ ~Exact(cs) \/ ~Exact(p) THEN Leave
            ELSE \E best \in { BestTurns(H) } :
            IF best = {} \/ ~(\E R \in best : AllFit(p, R)) THEN Leave
            ELSE \E R \in best :
                 \E p2 \in { Moved(p, IF Variant = "transposed" THEN Transp(R) ELSE R, Mean(cs)) } :
                 \E err \in { Error(IF Variant = "stale" THEN p ELSE p2, cs) } :
                 /\ p' = p2 /\ pairs' = cs /\ errs' = Append(errs, err)
                 /\ IF Rule(err) THEN phase' = "converged" /\ UNCHANGED <<k, prev>>
                    ELSE /\ prev' = err
                         /\ k' = k + 1
                         /\ phase' = IF k + 1 = budget + (IF Variant = "late" THEN 1 ELSE 0) THEN "exhausted" ELSE "run"
                 /\ UNCHANGED <<a, b, budget, abs, int>>

Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* I03: no considered motion brings the source closer to the matched targets.
Optimal == pairs = <<>> \/
    \A R \in Turns : AllFit(p, R) =>
    \A t \in [Axes -> {-1, 0, 1}] : Error(Moved(p, R, Add(Mean(p), t)), pairs) >= errs[Len(errs)]
\* The criterion the sessions of the code are judged by.
Criterion == pairs = <<>> \/ (OnlyBest(Cross(p, pairs)) /\ Mean(p) = Mean(pairs))
\* A proper motion: distances and orientation are kept.
Proper == /\ \A i, j \in 1..N : DistSq(p[i], p[j]) = DistSq(a[i], a[j])
          /\ D = 2 => \A i, j \in 1..N : Det(<<Sub(p[i], p[1]), Sub(p[j], p[1])>>) = Det(<<Sub(a[i], a[1]), Sub(a[j], a[1])>>)

\* I04
TrueResidual == errs = <<>> \/ errs[Len(errs)] = Error(p, pairs)
Descending == \A i \in 1..(Len(errs) - 1) : errs[i + 1] <= errs[i]

\* I02
Numbered == CASE phase = "converged" -> k < budget /\ Len(errs) = k + 1
              [] phase = "exhausted" -> k = budget /\ Len(errs) = budget
              [] OTHER -> k < budget
Stops == \A i \in 1..Len(errs) :
            LET by == (abs # 0 /\ 2 * errs[i] < abs) \/ (i > 1 /\ 2 * Abs(errs[i - 1] - errs[i]) < int) IN
            by <=> (phase = "converged" /\ i = Len(errs))
Returns == <>(phase # "run")

\* I05: a source whose points are nearest to their own images is recovered at once, and stays.
Recovers == (errs # <<>> /\ Extra = 0 /\ \A i \in 1..N : Nearest(a[i]) = {b[N + 1 - i]})
            => errs[1] = 0 /\ p = Reverse(b)
=============================================================================
