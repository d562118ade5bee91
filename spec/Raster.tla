------------------------------- MODULE Raster -------------------------------
(* The machine that draws the line: one cell per step along the longest axis,  *)
(* an accumulated error for every other one.                                   *)
EXTENDS Line

CONSTANTS N, Reach,
          Threshold,     \* "strip": steps when the ideal leads by N/(N+1); "late": only when by a whole cell (a defect)
          Drift          \* 0: exact errors; 1: rounding may add or lose 1/8 of a unit each time (a defect)

VARIABLES end, k, cell, err, cells
vars == <<end, k, cell, err, cells>>

Origin == [a \in 1..N |-> 0]
Scale  == IF Drift = 0 THEN 1 ELSE 8
D      == Longest(Origin, end)

Init == /\ end \in [1..N -> -Reach..Reach]
        /\ k = 0 /\ cell = Origin /\ err = Origin /\ cells = <<>>

After(a) == err[a] + Scale * (Delta(Origin, end, a) - D)
Moves(a) == \/ Delta(Origin, end, a) = D
            \/ IF Threshold = "strip" THEN After(a) * (N + 1) >= -Scale * D ELSE After(a) >= 0
Draw == /\ k < D
        /\ cells' = Append(cells, cell)
        /\ cell' = [a \in 1..N |-> IF Moves(a) THEN cell[a] + Dir(Origin, end, a) ELSE cell[a]]
        /\ \E r \in [1..N -> -Drift..Drift] :
             err' = [a \in 1..N |-> IF Delta(Origin, end, a) = D THEN 0
                                    ELSE (IF Moves(a) THEN After(a) ELSE err[a] + Scale * Delta(Origin, end, a)) + r[a]]
        /\ k' = k + 1
        /\ UNCHANGED end
Finish == /\ k = D
          /\ cells' = Append(cells, end)
          /\ cell' = end /\ k' = k + 1
          /\ UNCHANGED <<end, err>>
Next == Draw \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == k = D + 1
OnIdeal   == \A i \in 1..Len(cells) : OnCourse(Origin, end, i - 1, cells[i])
Connected == \A i \in 1..(Len(cells) - 1) : StepOk(Origin, end, cells[i], cells[i + 1])
Complete  == Done => Len(cells) = D + 1 /\ cells[1] = Origin /\ cells[D + 1] = end
\* The error is the lag behind the ideal.
ErrIsLag  == (Drift = 0 /\ k < D) => \A a \in 1..N : Dir(Origin, end, a) # 0 => err[a] = Trail(Origin, end, k, cell, a)
\* No other line stays in the strip.
Unique    == (Drift = 0 /\ Threshold = "strip" /\ k < D) =>
                \A a \in 1..N, x \in -1..1 : x # 0 => ~OnCourse(Origin, end, k, [cell EXCEPT ![a] = @ + x])
Finishes  == <>Done
=============================================================================
