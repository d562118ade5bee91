------------------------------- MODULE KDAbs -------------------------------
(* The spatial tree as its users see it: handles to independent trees, each *)
(* a set of points.  Points are tuples of integers.                         *)
(*                                                                          *)
(* A tree value is [ok, pts]: while ok, pts is a set.  A mutable traversal   *)
(* whose edit does not keep the order of the coordinates makes ok FALSE; the *)
(* tree is then only a bag of points (pts a sequence) and nearest-neighbour  *)
(* queries and insertions are no longer specified.                          *)
EXTENDS Num

EmptyTree == [ok |-> TRUE, pts |-> {}]
TreeOf(seq) == [ok |-> TRUE, pts |-> ToSet(seq)]

Size(t) == IF t.ok THEN Cardinality(t.pts) ELSE Len(t.pts)

Inserted(t, p) == [t EXCEPT !.pts = @ \cup {p}]

\* Order-keeping edits: on axis i, x becomes a[i]*x + b[i], plus s[i] where x > c[i]; a[i] > 0, s[i] >= 0.
EditPoint(e, p) == [i \in 1..Len(p) |-> e.a[i] * p[i] + e.b[i] + (IF p[i] > e.c[i] THEN e.s[i] ELSE 0)]
KeepsOrder(e) == \A i \in 1..Len(e.a) : e.a[i] > 0 /\ e.s[i] >= 0

AsSeq(t) == IF t.ok THEN SetToSeq(t.pts) ELSE t.pts
Edited(t, e) ==
    IF t.ok /\ KeepsOrder(e) THEN [ok |-> TRUE, pts |-> { EditPoint(e, p) : p \in t.pts }]
    ELSE LET s == AsSeq(t) IN [ok |-> FALSE, pts |-> [i \in 1..Len(s) |-> EditPoint(e, s[i])]]

\* r (a sequence with at most one point) is an acceptable answer to "nearest stored point to q".
Nearest(t, q, r) ==
    IF t.pts = {} THEN r = <<>>
    ELSE /\ Len(r) = 1
         /\ r[1] \in t.pts
         /\ LET best == DistSq(r[1], q) IN \A p \in t.pts : DistSq(p, q) >= best

\* seq visits every stored point exactly once.
Visits(t, seq) ==
    IF t.ok THEN Len(seq) = Cardinality(t.pts) /\ ToSet(seq) = t.pts
    ELSE SameBag(seq, t.pts)
=============================================================================
