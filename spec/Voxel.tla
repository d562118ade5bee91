------------------------------- MODULE Voxel -------------------------------
(* Voxel downsampling and centroids.  Voxel k on an axis is the half-open    *)
(* interval [k*s, (k+1)*s), for every integer k.                              *)
EXTENDS Cloud

(* The grouping as a machine that takes the points in any order.             *)
CONSTANTS D, Lo, Hi, MaxLen, S,
          Rounding       \* "floor", or "trunc" (towards zero: a defect)

VARIABLES cloud, todo, map      \* map: voxel |-> <<count, sums>>
vars == <<cloud, todo, map>>

Cell(p) == IF Rounding = "floor" THEN VoxelOf(p, S) ELSE [a \in 1..D |-> DivTrunc(p[a], S)]

Init == /\ cloud \in UNION { [1..n -> Grid(D, -Lo, Hi)] : n \in 0..MaxLen }
        /\ todo = DOMAIN cloud
        /\ map = <<>>

Take == \E j \in todo :
          LET p == cloud[j] c == Cell(p)
              old == IF c \in DOMAIN map THEN map[c] ELSE <<0, [a \in 1..D |-> 0]>>
          IN /\ map' = (c :> <<old[1] + 1, [a \in 1..D |-> old[2][a] + p[a]]>>) @@ map
             /\ todo' = todo \ {j}
             /\ UNCHANGED cloud

Next == Take
Spec == Init /\ [][Next]_vars

\* 60 is divisible by every count up to 6, so the means below are exact.
Quant == 60
Result == LET cells == SetToSeq(DOMAIN map) IN
          [j \in 1..Len(cells) |-> [a \in 1..D |-> (Quant * map[cells[j]][2][a]) \div map[cells[j]][1]]]
Correct == todo = {} => Downsampled(cloud, [j \in 1..Len(cloud) |-> 1], S, Result, Quant, 0)
Members == \A c \in DOMAIN map : map[c][1] > 0
=============================================================================
