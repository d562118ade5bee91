-------------------------------- MODULE Scan --------------------------------
(* Linear nearest-neighbour search: one action per candidate looked at.      *)
EXTENDS Cloud

CONSTANTS D, Hi, MaxLen,
          Strict      \* replace the best only by a strictly nearer point

VARIABLES pts, q, i, best

vars == <<pts, q, i, best>>

Init == /\ pts \in UNION { [1..n -> Grid(D, 0, Hi)] : n \in 0..MaxLen }
        /\ q \in Grid(D, 0, Hi)
        /\ i = 0
        /\ best = <<>>

Look == /\ i < Len(pts)
        /\ i' = i + 1
        /\ best' = IF best = <<>> THEN <<pts[i + 1]>>
                   ELSE IF \/ DistSq(pts[i + 1], q) < DistSq(best[1], q)
                           \/ ~Strict /\ DistSq(pts[i + 1], q) = DistSq(best[1], q)
                   THEN <<pts[i + 1]>> ELSE best
        /\ UNCHANGED <<pts, q>>

Next == Look
Spec == Init /\ [][Next]_vars

\* At every moment the best so far is the answer for the prefix looked at.
PrefixAnswer == FirstNearest(SubSeq(pts, 1, i), q, best)
=============================================================================
