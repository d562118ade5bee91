------------------------------- MODULE Jarvis -------------------------------
(* The gift-wrapping march.  Which of several points in the same direction is *)
(* taken depends on the order of the input, so here it is any of them.        *)
EXTENDS Hull

CONSTANTS Hi, MaxLen,
          Guard,        \* TRUE: never turns back along the stretch that led here
          Rounding,     \* TRUE: rounding errors may make any other candidate look outermost
          StopAt        \* "any": stops at any vertex already listed; "first": only at the first one

VARIABLES pts, hull, phase
vars == <<pts, hull, phase>>

Points == Grid(2, 0, Hi)
Lowest == CHOOSE p \in ToSet(pts) : \A q \in ToSet(pts) : LexLeq(p, q)

\* The cloud arrives point by point, one order of each multiset.
Init == pts = <<>> /\ hull = <<>> /\ phase = "gather"

Gather == /\ phase = "gather" /\ Len(pts) < MaxLen
          /\ \E p \in Points :
               /\ pts # <<>> => LexLeq(pts[Len(pts)], p)
               /\ pts' = Append(pts, p)
          /\ UNCHANGED <<hull, phase>>
Begin  == /\ phase = "gather"
          /\ phase' = IF Len(pts) < 3 THEN "none" ELSE "start"
          /\ UNCHANGED <<pts, hull>>

Start == /\ phase = "start"
         /\ hull' = <<Lowest>>
         /\ phase' = "march"
         /\ UNCHANGED pts

Cur == hull[Len(hull)]
Back(p) == /\ Guard /\ Len(hull) > 1
           /\ Cross(hull[Len(hull) - 1], Cur, p) = 0
           /\ Forward(hull[Len(hull) - 1], Cur, p) < 0
Candidates == { p \in ToSet(pts) : p # Cur /\ ~Back(p) }
\* No other candidate is further to the left.
Outermost == { p \in Candidates : \A q \in Candidates : Cross(Cur, p, q) <= 0 }

March == /\ phase = "march"
         /\ IF Candidates = {} THEN phase' = "none" /\ UNCHANGED hull
            ELSE \E p \in IF Rounding THEN Candidates ELSE Outermost :
                 IF (StopAt = "any" /\ p \in ToSet(hull)) \/ p = hull[1]
                 THEN phase' = (IF Len(hull) < 3 THEN "none" ELSE "hull") /\ UNCHANGED hull
                 ELSE hull' = Append(hull, p) /\ UNCHANGED phase
         /\ UNCHANGED pts

Next == Gather \/ Begin \/ Start \/ March
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == (~Rounding /\ phase \in {"hull", "none"}) => JarvisAnswer(pts, phase = "hull", IF phase = "hull" THEN hull ELSE <<>>)
\* Each vertex is listed once, so the march is over after at most Len(pts) steps.
Bounded == Distinct(hull)
\* There is always a way on.
NoDeadEnd == phase = "march" => Candidates = {} \/ Outermost # {}
Finishes == <>(phase \in {"hull", "none"})
=============================================================================
