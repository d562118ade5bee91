------------------------------ MODULE Trace_KD ------------------------------
(* Validates recorded sessions with real trees against KDAbs.               *)
EXTENDS KDAbs, TraceLib

VARIABLES sid, l,
          trees,     \* handle |-> abstract tree
          edited     \* a mutable traversal happened in this session

tvars == <<sid, l, trees, edited>>

Ev == Sessions[sid].ev
Tag(p) == IF edited THEN "K03" ELSE p

Init == sid \in 1..Len(Sessions) /\ l = 1 /\ trees = [h \in 1..3 |-> EmptyTree] /\ edited = FALSE

\* The reported size and emptiness agree with the tree.
SizeOk(e, t) == e.n = Size(t) /\ e.e = (Size(t) = 0)

\* The specification's action for the event.
After(e) ==
    CASE e.op = "new"   -> [trees EXCEPT ![e.h] = EmptyTree]
      [] e.op = "build" -> [trees EXCEPT ![e.h] = TreeOf(e.pts)]
      [] e.op = "ins"   -> [trees EXCEPT ![e.h] = Inserted(@, e.p)]
      [] e.op = "clone" -> [trees EXCEPT ![e.g] = trees[e.h]]
      [] e.op = "mut"   -> [trees EXCEPT ![e.h] = Edited(@, e.edit)]
      [] OTHER          -> trees

\* A tree of all points of the box from the origin with the given sides (too many to enumerate).
BoxSize(side) == FoldLeft(LAMBDA m, s : m * s, 1, side)
NearestInBox(side, q) == [i \in 1..Len(q) |-> Max2(0, Min2(side[i] - 1, q[i]))]

\* What the code returned must be what the specification allows.
Clauses(e) ==
    CASE e.op = "new"   -> << <<Tag("K02") \o ":default tree is empty", SizeOk(e, EmptyTree)>> >>
      [] e.op = "build" -> << <<Tag("K02") \o ":size after build", SizeOk(e, TreeOf(e.pts))>> >>
      [] e.op = "ins"   -> << <<Tag("K02") \o ":size after insert", SizeOk(e, After(e)[e.h])>> >>
      [] e.op = "near"  -> << <<Tag("K01") \o ":nearest", Nearest(trees[e.h], e.q, e.r)>> >>
      [] e.op = "trav"  -> << <<Tag("K02") \o ":traversal visits each point once", Visits(trees[e.h], e.seen)>>,
                              <<Tag("K02") \o ":size", SizeOk(e, trees[e.h])>> >>
      [] e.op = "clone" -> << <<Tag("K03") \o ":size of the clone", SizeOk(e, trees[e.h])>>,
                              <<Tag("K03") \o ":points of the clone", Visits(trees[e.h], e.seen)>> >>
      [] e.op = "mut"   -> << <<"K03:mutable traversal hands out each point once", Visits(trees[e.h], e.seen)>>,
                              <<"K03:stores exactly what the closure leaves", SameBag(e.left, e.kept)>>,
                              <<"K03:size unchanged by edits", SizeOk(e, trees[e.h])>> >>
      [] e.op = "grid"  -> << <<"K02:size of a large tree", e.n = BoxSize(e.side)>>,
                              <<"K02:traversal of a large tree", e.visits = BoxSize(e.side) /\ e.distinct = BoxSize(e.side)>>,
                              <<"K01:nearest in a large tree",
                                Len(e.rs) = Len(e.qs) /\ \A i \in 1..Len(e.qs) : e.rs[i] = NearestInBox(e.side, e.qs[i])>> >>
      [] e.op = "fail"  -> << <<Tag(e.p) \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l] IN
           /\ Report(sid, l, Failing(Clauses(e)))
           /\ trees' = After(e)
           /\ edited' = (edited \/ e.op = "mut")
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
