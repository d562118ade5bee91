------------------------------ MODULE BuilderOps ------------------------------
EXTENDS Num
(* What the calls mean: the last value set for each option along the chain of *)
(* calls an object stems from.                                                *)
Makes(op) == op.kind # "build"
\* The call that made builder number i.
MakerOf(cs, i) == LET m == SelectSeq([c \in 1..Len(cs) |-> IF Makes(cs[c]) THEN c ELSE 0], LAMBDA c : c # 0) IN m[i]
RECURSIVE LastSet(_, _, _)
LastSet(cs, i, kind) == LET op == cs[MakerOf(cs, i)] IN
    IF op.kind = kind THEN op.v
    ELSE IF op.kind = "new" THEN 0
    ELSE LastSet(cs, op.of, kind)
Meaning(cs, i) == [kd |-> LastSet(cs, i, "kd"), budget |-> LastSet(cs, i, "budget"),
                   abs |-> LastSet(cs, i, "abs"), int |-> LastSet(cs, i, "int")]
\* The builder that configuration number i was built from.
BuiltFrom(cs, i) == SelectSeq(cs, LAMBDA op : op.kind = "build")[i].of
=============================================================================
