------------------------------- MODULE Draws -------------------------------
(* Repeatable generation of point clouds: each request starts its own       *)
(* generator from the same seed, so the answer is a function of the request. *)
EXTENDS Num

CONSTANTS M, Seed,               \* generator x |-> (5x + 3) mod M
          Shared                 \* TRUE: the generator's state survives from call to call (a defect)

\* requests: <<count, lo, hi>>
Requests == { <<0, 0, 0>>, <<1, 2, 2>>, <<3, 0, 1>>, <<4, 1, 9>>, <<5, 0, 2>> }

VARIABLES state, answers         \* answers: set of <<request, values>> given so far
vars == <<state, answers>>

Step(x) == (5 * x + 3) % M
RECURSIVE Draw(_, _, _, _)
Draw(x, n, lo, hi) == IF n = 0 THEN <<>> ELSE <<lo + (Step(x) % (hi - lo + 1))>> \o Draw(Step(x), n - 1, lo, hi)
RECURSIVE Advance(_, _)
Advance(x, n) == IF n = 0 THEN x ELSE Advance(Step(x), n - 1)

Init == state = Seed /\ answers = {}
Ask(r) == LET from == IF Shared THEN state ELSE Seed IN
          /\ answers' = answers \cup { <<r, Draw(from, r[1], r[2], r[3])>> }
          /\ state' = IF Shared THEN Advance(state, r[1]) ELSE state
Next == \E r \in Requests : Ask(r)
Spec == Init /\ [][Next]_vars

Repeatable == \A a, b \in answers : a[1] = b[1] => a[2] = b[2]
SizeAndRange == \A a \in answers : /\ Len(a[2]) = a[1][1]
                                  /\ \A j \in 1..Len(a[2]) : a[2][j] >= a[1][2] /\ a[2][j] <= a[1][3]
=============================================================================
