------------------------------- MODULE Batch -------------------------------
(* The batch query: fold the extents over the vertices, then for each point   *)
(* look at the extents first and walk the edges only if it is within them.    *)
EXTENDS Polygon

CONSTANTS Hi, MaxLen, MaxQs,
          Filter,       \* "closed": extents include their ends; "open": they do not (a defect)
          Rule          \* "half": one end of an edge counts; "both": both do (a defect)

VARIABLES poly, qs, ext, k, j, odd, answers, phase
vars == <<poly, qs, ext, k, j, odd, answers, phase>>

Points  == Grid(2, 0, Hi)
Probes  == Grid(2, -1, Hi + 1)
NoBound == 1000      \* larger than every coordinate

Init == /\ poly = <<>> /\ qs = <<>> /\ answers = <<>>
        /\ ext = <<<<NoBound, -NoBound>>, <<NoBound, -NoBound>>>>
        /\ k = 1 /\ j = 1 /\ odd = FALSE
        /\ phase = "polygon"

Vertex == /\ phase = "polygon" /\ Len(poly) < MaxLen
          /\ \E p \in Points : poly' = Append(poly, p)
          /\ UNCHANGED <<qs, ext, k, j, odd, answers, phase>>
Probe  == /\ phase = "polygon" /\ poly # <<>> /\ Len(qs) < MaxQs
          /\ \E q \in Probes : qs' = Append(qs, q)
          /\ phase' = IF Len(qs') = MaxQs THEN IF Len(poly) < 3 THEN "declined" ELSE "extents" ELSE "polygon"
          /\ UNCHANGED <<poly, ext, k, j, odd, answers>>
\* The vertex list is complete once the first point has been given.
Extend == /\ phase = "extents"
          /\ IF j <= Len(poly)
             THEN /\ ext' = [a \in 1..2 |-> <<Min2(ext[a][1], poly[j][a]), Max2(ext[a][2], poly[j][a])>>]
                  /\ j' = j + 1 /\ UNCHANGED phase
             ELSE /\ phase' = "filter" /\ j' = 1 /\ UNCHANGED ext
          /\ UNCHANGED <<poly, qs, k, odd, answers>>
Passes(q) == IF Filter = "closed" THEN WithinExt(q, ext)
             ELSE \A a \in 1..2 : ext[a][1] < q[a] /\ q[a] < ext[a][2]
Look   == /\ phase = "filter"
          /\ IF k > Len(qs) THEN phase' = "done" /\ UNCHANGED <<k, answers>>
             ELSE IF Passes(qs[k]) THEN phase' = "edges" /\ UNCHANGED <<k, answers>>
             ELSE answers' = Append(answers, FALSE) /\ k' = k + 1 /\ UNCHANGED phase
          /\ j' = 1 /\ odd' = FALSE
          /\ UNCHANGED <<poly, qs, ext>>
Hits(q, a, b) == IF Rule = "half" THEN CrossesRight(q, a, b)
                 ELSE LET lo == Lower(a, b) hi == Upper(a, b) IN
                      q[2] >= lo[2] /\ q[2] <= hi[2] /\ Cross(lo, hi, q) >= 0
Walk   == /\ phase = "edges"
          /\ IF j <= Len(poly)
             THEN /\ odd' = (odd # Hits(qs[k], Edge(poly, j)[1], Edge(poly, j)[2]))
                  /\ j' = j + 1
                  /\ UNCHANGED <<k, answers, phase>>
             ELSE /\ answers' = Append(answers, odd)
                  /\ k' = k + 1 /\ phase' = "filter"
                  /\ UNCHANGED <<j, odd>>
          /\ UNCHANGED <<poly, qs, ext>>

Next == (qs = <<>> /\ Vertex) \/ Probe \/ Extend \/ Look \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EvenOdd    == phase = "done" => \A i \in 1..Len(qs) :
                 ~OnBoundary(qs[i], poly) => (answers[i] <=> Inside(qs[i], poly))
\* The batch gives what the single query gives.
SameAsSingle == phase = "done" => answers = [i \in 1..Len(qs) |-> Inside(qs[i], poly)]
ExtentsTight == phase = "filter" => Tight(poly, ext)
Declines     == phase = "declined" <=> (Len(qs) = MaxQs /\ Len(poly) < 3)
\* The theorems about the even-odd rule that the code is held to, at each complete polygon.
Theorems == (phase = "extents" /\ j = 1) => LET q == qs[1] IN
    /\ AnyRay(q, poly)
    /\ Inside(q, poly) <=> Inside(q, Reverse(poly))
    /\ \A r \in 1..(Len(poly) - 1) : Inside(q, poly) <=> Inside(q, Rotated(poly, r))
    /\ \A m \in 1..Len(poly), n \in 1..Len(poly) : m < n =>
         (Inside(q, poly) <=> (Inside(q, PieceA(poly, m, n)) # Inside(q, PieceB(poly, m, n))))
Degenerate == phase = "declined" => ~Inside(qs[1], poly)
Finishes == <>(phase \in {"done", "declined"})
=============================================================================
