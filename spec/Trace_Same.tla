------------------------------ MODULE Trace_Same ------------------------------
(* The same session run in two ways: through the generic and the ready-made   *)
(* functions, or in two builds of the library.  Both recordings must agree.   *)
EXTENDS TraceLib, Catalogue

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev
Init == sid \in 1..Len(Sessions) /\ l = 1

\* Events are given as text; those whose results have no determined order also as the bags of results.
Agree(e) == IF e.bags = <<>> THEN e.a = e.b
            ELSE e.rest[1] = e.rest[2] /\ \A i \in 1..Len(e.bags) : SameBag(e.bags[i][1], e.bags[i][2])
Clauses(e) ==
    CASE e.op = "pair" -> << <<"same result", Agree(e)>> >>
      [] e.op = "names" -> << <<"every ready-made function is exercised", Names \subseteq { e.names[i] : i \in 1..Len(e.names) }>> >>
      [] e.op = "lengths" -> << <<"same sessions", e.a = e.b>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Next]_tvars
=============================================================================
