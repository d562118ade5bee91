----------------------------- MODULE Trace_Hull -----------------------------
(* Validates recorded hulls against Hull.  The tag of an event names the      *)
(* property whose inputs it belongs to.                                       *)
EXTENDS Hull, TraceLib

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

Answer(e, pts) == IF e.alg = "graham" THEN GrahamAnswer(pts, e.some, e.h) ELSE JarvisAnswer(pts, e.some, e.h)

Clauses(e) ==
    CASE e.op = "hull" ->
            LET cloud == IF e.vox = 0 THEN e.pts ELSE MeansOf(e.pts, e.vox)
            IN << <<e.tag \o ":" \o e.alg \o " returns the hull",
                    /\ Assert(e.vox = 0 \/ ExactMeans(e.pts, e.vox), "the driver must choose exact means")
                    /\ Answer(e, cloud)>> >>
      [] e.op = "parabola" -> << <<e.tag \o ":" \o e.alg \o " returns every corner", ParabolaHull(e.lo, e.hi, e.h)>> >>
      [] e.op = "rough" ->
            << <<e.tag \o ":vertices are input points, each once",
                 e.some => /\ \A j \in 1..Len(e.h) : e.h[j] \in 1..e.n
                           /\ Distinct(e.h)>> >>
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
