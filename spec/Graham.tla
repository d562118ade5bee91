------------------------------- MODULE Graham -------------------------------
(* The monotone-chain scan: over the points in lexicographic order for the   *)
(* upper chain, then in reverse for the lower one; each point first removes   *)
(* the ends of the chain that it makes superfluous.                           *)
EXTENDS Hull

CONSTANTS Hi, MinLen, MaxLen,
          DoSort,       \* FALSE: scans the points as they come (a defect)
          PopOn         \* "leq": also removes points on a straight stretch; "lt": only reflex ones (a defect)

VARIABLES input, order, i, chain, upper, phase
vars == <<input, order, i, chain, upper, phase>>

Points == Grid(2, 0, Hi)
SortedOf(s) == SortSeq(s, LexLess)

\* The cloud arrives point by point; when it is sorted anyway one order of each multiset suffices.
Init == /\ input = <<>> /\ order = <<>>
        /\ i = 1 /\ chain = <<>> /\ upper = <<>>
        /\ phase = "gather"

Gather == /\ phase = "gather" /\ Len(input) < MaxLen
          /\ \E p \in Points :
               /\ (DoSort /\ input # <<>>) => LexLeq(input[Len(input)], p)
               /\ input' = Append(input, p)
          /\ UNCHANGED <<order, i, chain, upper, phase>>
Begin  == /\ phase = "gather" /\ Len(input) >= MinLen
          /\ order' = IF DoSort THEN SortedOf(input) ELSE input
          /\ phase' = IF Len(input) < 3 THEN "none" ELSE "upper"
          /\ UNCHANGED <<input, i, chain, upper>>

\* The library's determinant is the negated cross product.
Superfluous(p) == /\ Len(chain) > 1
                  /\ LET c == Cross(chain[Len(chain) - 1], chain[Len(chain)], p) IN
                     IF PopOn = "leq" THEN c >= 0 ELSE c > 0

Scanning == phase \in {"upper", "lower"} /\ i <= Len(order)
Pop  == /\ Scanning /\ Superfluous(order[i])
        /\ chain' = SubSeq(chain, 1, Len(chain) - 1)
        /\ UNCHANGED <<input, order, i, upper, phase>>
Push == /\ Scanning /\ ~Superfluous(order[i])
        /\ chain' = Append(chain, order[i])
        /\ i' = i + 1
        /\ UNCHANGED <<input, order, upper, phase>>
Turn == /\ phase = "upper" /\ i > Len(order)
        /\ upper' = chain /\ chain' = <<>> /\ i' = 1
        /\ order' = Reverse(order)
        /\ phase' = "lower"
        /\ UNCHANGED input
Stop == /\ phase = "lower" /\ i > Len(order)
        /\ phase' = IF Len(upper) + Len(chain) - 2 > 2 THEN "hull" ELSE "none"
        /\ UNCHANGED <<input, order, i, chain, upper>>

Next == Gather \/ Begin \/ Pop \/ Push \/ Turn \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == SubSeq(upper, 1, Len(upper) - 1) \o SubSeq(chain, 1, Len(chain) - 1)

Correct == phase \in {"hull", "none"} =>
              GrahamAnswer(input, phase = "hull", IF phase = "hull" THEN Result ELSE <<>>)
\* The chain always bends strictly to the right.
ChainConvex == (DoSort /\ PopOn = "leq") =>
                 \A j \in 2..(Len(chain) - 1) : Cross(chain[j - 1], chain[j], chain[j + 1]) < 0
Finishes == <>(phase \in {"hull", "none"})
=============================================================================
