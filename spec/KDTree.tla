------------------------------- MODULE KDTree -------------------------------
(* The spatial tree as the library builds it: a binary tree, given as a     *)
(* function from paths (sequences of 0 = left, 1 = right) to points.        *)
(* The level of a node selects the axis it splits.  The module is checked   *)
(* to refine KDAbs: the stored set, and every query answered by the pruned  *)
(* descent, are those of the abstract tree.                                 *)
EXTENDS KDAbs

CONSTANTS D,          \* dimension
          MaxSize,    \* bound on the number of stored points (state constraint)
          Lo, Hi,     \* coordinates of inserted points
          Margin,     \* query targets reach this far beyond Lo..Hi
          SkipRule    \* which rule decides to skip the far branch, "sound" or a deliberately wrong one

VARIABLES tree,       \* path |-> point
          abs         \* the abstract value, updated by KDAbs only

vars == <<tree, abs>>

Axis(path) == (Len(path) % D) + 1
Has(path) == path \in DOMAIN tree

\* The path where inserting p ends: a free place, or the node that already holds p.
RECURSIVE Place(_, _)
Place(path, p) ==
    IF ~Has(path) THEN path
    ELSE IF tree[path] = p THEN path
    ELSE Place(Append(path, IF p[Axis(path)] < tree[path][Axis(path)] THEN 0 ELSE 1), p)

Init == tree = << >> /\ abs = EmptyTree

Insert(p) ==
    LET at == Place(<<>>, p) IN
    /\ tree' = IF Has(at) THEN tree ELSE tree @@ (at :> p)
    /\ abs' = Inserted(abs, p)

Next == \E p \in Grid(D, Lo, Hi) : Insert(p)
Spec == Init /\ [][Next]_vars

Bound == Cardinality(DOMAIN tree) <= MaxSize

\* The pruned descent.  Returns <<>> below a leaf, else <<point>>.
Closer(r, best, q) == IF r = <<>> THEN best
                      ELSE IF best = <<>> THEN r
                      ELSE IF DistSq(r[1], q) < DistSq(best[1], q) THEN r ELSE best

RECURSIVE Descend(_, _)
Descend(path, q) ==
    IF ~Has(path) THEN <<>>
    ELSE LET here  == tree[path]
             ax    == Axis(path)
             side  == IF q[ax] < here[ax] THEN 0 ELSE 1
             best1 == Closer(<<here>>, Descend(Append(path, side), q), q)
             gap   == q[ax] - here[ax]
             skip  == CASE SkipRule = "sound"   -> gap * gap >= DistSq(best1[1], q)
                        [] SkipRule = "linear"  -> Abs(gap) >= DistSq(best1[1], q)
                        [] SkipRule = "always"  -> TRUE
         IN IF skip THEN best1 ELSE Closer(Descend(Append(path, 1 - side), q), best1, q)

-----------------------------------------------------------------------------
\* Invariants.
Stored == { tree[path] : path \in DOMAIN tree }

Refines == /\ Stored = abs.pts
           /\ Cardinality(DOMAIN tree) = Cardinality(abs.pts)   \* each point once

Ordered == \A path \in DOMAIN tree : \A k \in 0..(Len(path) - 1) :
              LET above == SubSeq(path, 1, k)
                  ax    == Axis(above)
              IN IF path[k + 1] = 0 THEN tree[path][ax] < tree[above][ax]
                 ELSE tree[path][ax] >= tree[above][ax]

Closed == \A path \in DOMAIN tree : path = <<>> \/ Has(SubSeq(path, 1, Len(path) - 1))

NearestRefines == \A q \in Grid(D, Lo - Margin, Hi + Margin) : Nearest(abs, q, Descend(<<>>, q))

\* An order-keeping edit of every node keeps the tree ordered, so later answers stay exact (K03).
EditKeepsOrdered ==
    \A e \in { [a |-> [i \in 1..D |-> 2], b |-> [i \in 1..D |-> -1], c |-> [i \in 1..D |-> cc], s |-> [i \in 1..D |-> 3]] : cc \in Lo..Hi } :
        LET new == [path \in DOMAIN tree |-> EditPoint(e, tree[path])] IN
        \A path \in DOMAIN tree : \A k \in 0..(Len(path) - 1) :
              LET above == SubSeq(path, 1, k)
                  ax    == Axis(above)
              IN IF path[k + 1] = 0 THEN new[path][ax] < new[above][ax]
                 ELSE new[path][ax] >= new[above][ax]
=============================================================================
