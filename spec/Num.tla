-------------------------------- MODULE Num --------------------------------
(* Integer, sequence and bag operators shared by every specification.       *)
(* TLC integers have 32 bits and abort on overflow, they never wrap.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* No specified quantity is this large; checked before multiplying values that come from the code.
Huge      == 1000000000
Abs(x)    == IF x < 0 THEN -x ELSE x
Sgn(x)    == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* Integer division rounding towards minus infinity is TLC's \div; this one rounds to nearest, halves up.
DivRound(a, b) == (2 * a + b) \div (2 * b)
\* Division rounding towards zero.
DivTrunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
\* TLC evaluates the expression in S = {expr} once.
Only(S) == CHOOSE x \in S : TRUE
MinSeq(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), s[1], s)
MaxSeq(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), s[1], s)

\* Square of the Euclidean distance of two integer points of the same dimension.
DistSq(p, q) ==
    CASE Len(p) = 2 -> (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
      [] Len(p) = 3 -> (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
                       + (p[3] - q[3]) * (p[3] - q[3])
      [] OTHER -> SumSeq([i \in 1..Len(p) |-> (p[i] - q[i]) * (p[i] - q[i])])

\* Strict lexicographic order of two sequences of the same length.
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(p, q, i) ==
    IF i > Len(p) THEN FALSE
    ELSE IF p[i] # q[i] THEN p[i] < q[i]
    ELSE LexLessFrom(p, q, i + 1)
LexLess(p, q) == LexLessFrom(p, q, 1)
LexLeq(p, q)  == p = q \/ LexLess(p, q)

\* The bag of the elements of a sequence, as a function from element to multiplicity.
BagOf(s) == FoldLeft(LAMBDA b, x : IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE b @@ (x :> 1),
                     <<>>, s)
SameBag(s, t) == Len(s) = Len(t) /\ BagOf(s) = BagOf(t)

\* The set of named clauses that are false; c is a sequence of <<tag, condition>>.
Failing(c) == { c[i][1] : i \in { j \in 1..Len(c) : ~c[j][2] } }

\* All points of dimension d with coordinates lo..hi.
Grid(d, lo, hi) == [1..d -> lo..hi]
=============================================================================
