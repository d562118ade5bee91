----------------------------- MODULE Gen_Request -----------------------------
(* Every combination of flaws of a request.  Thresholds: 0 is NaN, otherwise a *)
(* position in the order -infinity, -1, -0, 0, just below the epsilon, the     *)
(* epsilon, just above, an ordinary value, infinity.                           *)
EXTENDS Request, Json

VARIABLE r
Thresholds == 0..9
T(c) == [nan |-> c = 0, code |-> <<c>>]
Requests == { [na |-> na, nb |-> nb, iters |-> it, int |-> T(i), abs |-> x, eps |-> <<6>>] :
                 na \in {0, 2}, nb \in {0, 3}, it \in {0, 1, 4}, i \in Thresholds, x \in {<<>>} \cup { <<T(c)>> : c \in Thresholds } }
Init == r \in Requests
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

\* The verdict names a flaw the request has, and no earlier one.
HasFlaw(f) == CASE f = "SourceEmpty" -> r.na = 0 [] f = "TargetEmpty" -> r.nb = 0 [] f = "IterationsZero" -> r.iters = 0
                [] f = "Interval" -> r.int.nan \/ r.int.code[1] <= 6
                [] f = "Absolute" -> r.abs # <<>> /\ (r.abs[1].nan \/ r.abs[1].code[1] <= 6)
Order == <<"SourceEmpty", "TargetEmpty", "IterationsZero", "Interval", "Absolute">>
First == IF FirstFlaw(r) = "none" THEN \A f \in Flaws : ~HasFlaw(f)
         ELSE \E i \in 1..5 : Order[i] = FirstFlaw(r) /\ HasFlaw(Order[i]) /\ \A j \in 1..(i - 1) : ~HasFlaw(Order[j])
Emit == PrintT("SCRIPT " \o ToJson([na |-> r.na, nb |-> r.nb, iters |-> r.iters, int |-> r.int.code[1],
                                     abs |-> IF r.abs = <<>> THEN <<>> ELSE <<r.abs[1].code[1]>>]))
=============================================================================
