---------------------------- MODULE Trace_Polygon ----------------------------
(* Validates recorded point-in-polygon queries and extents against Polygon.    *)
EXTENDS Polygon, TraceLib

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

Clauses(e) ==
    CASE e.op = "single" ->       \* one polygon, several points, coordinates on the lattice
            << <<"P01:one answer per point", Len(e.r) = Len(e.qs)>>,
               <<"P01:inside exactly by the even-odd rule",
                 \A i \in 1..Len(e.qs) : ~OnBoundary(e.qs[i], e.poly) => (e.r[i] <=> Inside(e.qs[i], e.poly))>>,
               <<"P01:degenerate polygons contain nothing", Len(e.poly) < 3 => \A i \in 1..Len(e.r) : ~e.r[i]>> >>
      [] e.op = "batch" ->        \* n vertices; one: the single answers; every, any: over the answers to a repeated point
            << <<"P02:declines exactly for fewer than three vertices", e.some = (e.n >= 3)>>,
               <<"P02:one answer per point", e.some => e.count = SumSeq(e.reps)>>,
               <<"P02:each answer is the single query's", e.some => e.every = e.one /\ e.any = e.one>> >>
      [] e.op = "cut" ->
            << <<"P04:each point is in exactly one of the pieces",
                 /\ Len(e.whole) = Len(e.a) /\ Len(e.whole) = Len(e.b)
                 /\ \A i \in 1..Len(e.whole) : e.whole[i] <=> (e.a[i] # e.b[i])>>,
               <<"P04:independent of orientation and starting vertex",
                 e.rev = e.whole /\ e.rot = e.whole>> >>
      [] e.op = "border" ->       \* a lattice polygon cut along the chord between vertices i and j
            << <<"P04:each point of the inside is in exactly one of the pieces",
                 \A k \in 1..Len(e.qs) : ~OnBoundary(e.qs[k], e.poly) =>
                    /\ (e.a[k] # e.b[k]) <=> Inside(e.qs[k], e.poly)
                    /\ e.whole[k] <=> Inside(e.qs[k], e.poly)>>,
               <<"P04:each piece is the polygon of its vertices",
                 \A k \in 1..Len(e.qs) :
                    /\ ~OnBoundary(e.qs[k], PieceA(e.poly, e.i, e.j)) => (e.a[k] <=> Inside(e.qs[k], PieceA(e.poly, e.i, e.j)))
                    /\ ~OnBoundary(e.qs[k], PieceB(e.poly, e.i, e.j)) => (e.b[k] <=> Inside(e.qs[k], PieceB(e.poly, e.i, e.j)))>> >>
      [] e.op = "extents" ->      \* coordinates by rank
            << <<"P03:none exactly for fewer than three vertices", e.some = (SumSeq(e.reps) >= 3)>>,
               <<"P03:tight", e.some => Tight(e.poly, e.ext)>> >>
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
