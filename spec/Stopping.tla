------------------------------- MODULE Stopping -------------------------------
(* When a registration ends.  Errors are numbers whose order and difference   *)
(* are given; the first iteration is compared with a number larger than any   *)
(* threshold.                                                                 *)
EXTENDS Num

\* Does the iteration end the registration?  err and gap (to the previous error) and both thresholds as codes.
Ends(err, gap, abs, int) == (Len(abs) = 1 /\ LexLess(err, abs[1])) \/ LexLess(gap, int)

\* The first of the iterations that ends the registration, 0 if none does. steps: [err, gap].
RECURSIVE FirstEnd(_, _, _, _)
FirstEnd(steps, abs, int, i) ==
    IF i > Len(steps) THEN 0
    ELSE IF Ends(steps[i].err, steps[i].gap, abs, int) THEN i
    ELSE FirstEnd(steps, abs, int, i + 1)
=============================================================================
