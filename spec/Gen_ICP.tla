------------------------------- MODULE Gen_ICP -------------------------------
(* Complete registrations of the model.                                       *)
EXTENDS ICP, Json
Emit == phase \in {"converged", "exhausted"} =>
        PrintT("SCRIPT " \o ToJson([a |-> a, b |-> b, n |-> N, budget |-> budget, abs |-> abs, int |-> int,
                                    verdict |-> phase, k |-> k, errs |-> errs, final |-> p]))
=============================================================================
