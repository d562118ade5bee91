-------------------------------- MODULE Lex --------------------------------
(* Lexicographic sorting.  A coordinate is an integer code: code \div 2 is   *)
(* its place in the order (so 2k and 2k+1 are equal but distinguishable      *)
(* values, such as the two zeros); codes from NaNBase on are NaNs.           *)
EXTENDS Cloud

(* The in-place sort as a machine: check first, then exchange neighbours that *)
(* are out of order, in any order, until none is left.                        *)
CONSTANTS D, Codes, MaxLen,
          CheckFirst     \* FALSE: the NaN check happens while sorting (a defect)

VARIABLES input, list, phase
vars == <<input, list, phase>>

Init == /\ input \in UNION { [1..n -> [1..D -> Codes]] : n \in 0..MaxLen }
        /\ list = input
        /\ phase = "start"

Check == /\ phase = "start"
         /\ phase' = IF CheckFirst /\ HasNaN(list) THEN "declined" ELSE "sorting"
         /\ UNCHANGED <<input, list>>

Exchange == /\ phase = "sorting"
            /\ \E j \in 1..(Len(list) - 1) :
                  /\ ~Leq(list[j], list[j + 1])
                  /\ list' = [list EXCEPT ![j] = list[j + 1], ![j + 1] = list[j]]
            /\ UNCHANGED <<input, phase>>

Stop == /\ phase = "sorting"
        /\ Sorted(list) \/ HasNaN(list)
        /\ phase' = IF HasNaN(list) THEN "declined" ELSE "done"
        /\ UNCHANGED <<input, list>>

Next == Check \/ Exchange \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Permutation == SameBag(input, list)
DoneSorted  == phase = "done" => SortResult(input, TRUE, list)
Untouched   == phase = "declined" => list = input
Finishes    == <>(phase \in {"done", "declined"})
=============================================================================
