------------------------------ MODULE TraceLib ------------------------------
(* Recorded executions: one JSON value per line, one line per session.      *)
EXTENDS Num, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

\* Reports the failing clauses of event l of session sid; always TRUE, so validation goes on.
Report(sid, l, bad) ==
    IF bad = {} THEN TRUE
    ELSE PrintT("REJECT " \o ToJson([sid |-> sid, l |-> l, bad |-> SetToSeq(bad)]))

=============================================================================
