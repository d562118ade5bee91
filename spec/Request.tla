------------------------------- MODULE Request -------------------------------
(* A registration request and the first flaw it has.  Thresholds are numbers *)
(* whose order is all that matters; NaN is apart.                            *)
EXTENDS Num

\* A threshold: [nan |-> BOOLEAN, code |-> a sequence compared lexicographically].
Unusable(t, eps) == t.nan \/ LexLeq(t.code, eps)

\* r: [na, nb, iters, int, abs (sequence of zero or one threshold), eps]
FirstFlaw(r) ==
    IF r.na = 0 THEN "SourceEmpty"
    ELSE IF r.nb = 0 THEN "TargetEmpty"
    ELSE IF r.iters = 0 THEN "IterationsZero"
    ELSE IF Unusable(r.int, r.eps) THEN "Interval"
    ELSE IF Len(r.abs) = 1 /\ Unusable(r.abs[1], r.eps) THEN "Absolute"
    ELSE "none"

Flaws == {"SourceEmpty", "TargetEmpty", "IterationsZero", "Interval", "Absolute"}
=============================================================================
