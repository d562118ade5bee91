------------------------------ MODULE Trace_ICP ------------------------------
(* Validates recorded registrations against Request, Stopping and Align, and  *)
(* those of the model ICP against its behaviours.                             *)
EXTENDS Align, Request, Stopping, TraceLib

Build == INSTANCE BuilderOps

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

Dbl(e) == e.prec = "f64"
\* Accuracy of coordinates up to e.mag after a few operations: 64 units in the last place, and the fixed point's.
Delta(e) == IF Dbl(e) THEN 2 ELSE 2 + (e.mag \div 262144)
Verdicts == Flaws \cup {"converged", "exhausted"}

\* What every new motion must satisfy: x is a under it.
Motion(p, e) ==
    << <<p \o ":a proper rigid motion", ProperRotation(e.rot, Dbl(e))>>,
       <<p \o ":the points are the source under the motion",
         AllIn(e.x) /\ InRange(e.t) /\ MovedTo(e.rot, e.t, e.a, e.x, Delta(e))>> >>

\* The best motion for the pairs (x, cs).
Best(p, e, cs, ws) ==
    IF ~AllIn(e.x) THEN <<>> ELSE
    << <<p \o ":centroids coincide", SameCentre(e.x, cs, ws, Delta(e))>>,
       <<p \o ":the best rotation",
         \A us \in {Devs(e.x, ws)} : \A vs \in {Devs(cs, ws)} : \A H \in {CrossW(us, vs, ws)} :
            Symmetric(H, us, vs, ws, Dbl(e), Delta(e)) /\ Largest(H, us, vs, ws, Delta(e))>> >>

Allowance(e, us, vs) == SAdd(SShr(Strength(us, vs, e.w), SvdBits(Dbl(e), e.d)), Noise(us, vs, e.w, Delta(e)))
\* Relative rounding of a sum of squares.
SumBits(e) == IF Dbl(e) THEN 24 ELSE IF SumSeq(e.w) > 64 THEN 13 ELSE 16
Errors(e, cs) ==
    IF ~AllIn(e.x) THEN <<>> ELSE
    << <<"I04:the error is the residual",
         \A r \in {Residual(e.x, cs, e.w)} : SNear(r, e.err, SAdd(ResidualNoise(e.x, cs, e.w, Delta(e)), SShr(r, SumBits(e))))>>,
       <<"I04:no worse than before",
         \A us \in {Devs(e.x, e.w)} : \A vs \in {Devs(cs, e.w)} : \A r \in {Residual(e.p, cs, e.w)} :
            SLeq(e.err, SAdd(SAdd(r, ResidualNoise(e.p, cs, e.w, Delta(e))), SAdd(SShr(r, IF Dbl(e) THEN 24 ELSE 12), Allowance(e, us, vs))))>> >>
Centres(e, cs) ==
    IF e.ok THEN <<>>
    ELSE << <<"I03:reports both centroids", IsCentre(e.ma, e.p, e.w, Delta(e)) /\ IsCentre(e.mb, cs, e.w, Delta(e))>> >>

Steps(e, ms) ==     \* ms: positions in b, 0 where in doubt
    Motion("I03", e) \o << <<"I04:never negative", SLeq(SZero, e.err)>> >> \o
    (IF \E i \in 1..Len(ms) : ms[i] = 0 THEN <<>>
     ELSE Only({ Best("I03", e, cs, e.w) \o Errors(e, cs) \o Centres(e, cs) : cs \in { [i \in 1..Len(ms) |-> e.b[ms[i]]] } }))

\* How far rounding may raise the error of e.n points within e.spread of their centre.
Slack(e) == SAdd(SMul(e.n * e.d, 4 * (Delta(e) + 1) * (Delta(e) + 1)),
                 STimes(SAdd(SShr(SMul(Min2(e.spread, Limb - 1), Min2(e.spread, Limb - 1)), SvdBits(Dbl(e), e.d)), SInt(1)), e.n))
Within(e) == IF Dbl(e) THEN 4 ELSE IF e.d = 2 THEN 8 * Delta(e) ELSE 8 * Delta(e) + (e.mag \div 256)
Expected(e) == FirstEnd(e.steps, e.abs, e.int, 1)
Unique(ps, e) == \A i \in 1..Len(ps) : IF e.exact THEN ExactNearest(ps[i], e.b) # 0 ELSE NearestOf(ps[i], e.b, Dbl(e), Delta(e)) # 0

\* Of the grid's points, the multiples of gap below gap * sides[c] along axis c, clearly one is nearest to p.
OneOfGrid(p, sides, gap) ==
    \A c \in 1..Len(p) :
       \/ Abs(p[c]) <= 4 * gap /\ p[c] <= 3 * (gap \div 8)
       \/ Abs(p[c] - gap * (sides[c] - 1)) <= 4 * gap /\ p[c] >= gap * (sides[c] - 1) - 3 * (gap \div 8)
       \/ /\ 0 <= p[c] /\ p[c] < gap * sides[c]
          /\ \E m \in {p[c] % gap} : m <= 3 * (gap \div 8) \/ m >= gap - 3 * (gap \div 8)

\* Observed in a replay of the model: moved source times 64, errors times 16.
Close(xs, ps) == Len(xs) = Len(ps) /\ \A i \in 1..Len(xs) : \A c \in 1..Len(xs[i]) : Abs(xs[i][c]) < Huge /\ Abs(xs[i][c] - 64 * ps[i][c]) <= 4
NearErr(x, y) == Abs(x) < Huge /\ Abs(x - 16 * y) <= 2 + (y \div 4096)

\* What a configuration with the given options does in the world whose iterations are e.steps.
BudgetOf(e, m) == IF m.budget = 0 THEN 20 ELSE <<1, 2, 3, 5, 9, 25, 300, 70000, 2000000000, 2000000000>>[m.budget]
ValueOf(e, kind, v) == LET c == CHOOSE i \in 1..Len(e.ops) : e.ops[i].kind = kind /\ e.ops[i].v = v IN e.ops[c].value
AbsOf(e, m) == IF m.abs = 0 THEN <<>> ELSE ValueOf(e, "abs", m.abs)
IntOf(e, m) == IF m.int = 0 THEN e.default ELSE ValueOf(e, "int", m.int)
Behaves(e, o, m) ==
    LET n == Min2(BudgetOf(e, m), Len(e.steps))
        f == FirstEnd(SubSeq(e.steps, 1, n), AbsOf(e, m), IntOf(e, m), 1)
    IN IF f = 0 THEN (BudgetOf(e, m) <= Len(e.steps) => o.verdict = "exhausted")
       ELSE o.verdict = "converged" /\ o.k = f - 1 /\ o.err = e.steps[f].err
Objects(e) == [i \in 1..Len(e.builders) |-> <<e.builders[i], Build!Meaning(e.ops, i)>>]
           \o [i \in 1..Len(e.configs) |-> <<e.configs[i], Build!Meaning(e.ops, Build!BuiltFrom(e.ops, i))>>]
Builders(e) == Only({
    << <<"I08:behaves by the last values set", \A i \in 1..Len(os) : Behaves(e, os[i][1], os[i][2])>>,
       <<"I08:search method", \A i \in 1..Len(os) : os[i][2].kd = 0 => os[i][1].nan>>,
       <<"I08:equal options, equal configurations", \A i, j \in 1..Len(os) : os[i][2] = os[j][2] => os[i][1].text = os[j][1].text>>,
       <<"I08:different options, different configurations",
         e.informative => \A i, j \in 1..Len(os) : os[i][2] # os[j][2] => os[i][1].text # os[j][1].text>> >>
    : os \in {Objects(e)} })

Clauses(e) ==
    CASE e.op = "req" ->
            << <<"I01:" \o FirstFlaw(e), IF FirstFlaw(e) = "none" THEN e.verdict \in {"converged", "exhausted"} ELSE e.verdict = FirstFlaw(e)>> >>
      [] e.op = "run" ->
            << <<"I02:each iteration decides by the rule", \A i \in 1..Len(e.steps) : e.steps[i].ok <=> Ends(e.steps[i].err, e.steps[i].gap, e.abs, e.int)>>,
               <<"I02:verdict", e.verdict = (IF Expected(e) = 0 THEN "exhausted" ELSE "converged")>>,
               <<"I02:number of iterations", IF Expected(e) = 0 THEN Len(e.steps) = e.budget ELSE Expected(e) <= e.budget>>,
               <<"I02:reports that iteration", e.verdict = "converged" /\ Expected(e) > 0 =>
                     e.k = Expected(e) - 1 /\ e.err = e.steps[Expected(e)].err /\ e.motion = e.byhand>>,
               <<"I04:never increases", \A i \in 1..(Len(e.fixed) - 1) :
                     SLeq(e.fixed[i + 1], SAdd(e.fixed[i], SAdd(SShr(e.fixed[i], IF Dbl(e) THEN 24 ELSE 9), Slack(e))))>> >>
      [] e.op = "iter" -> Only({ Steps(e, ms) : ms \in { IF e.exact THEN [i \in 1..Len(e.p) |-> ExactNearest(e.p[i], e.b)] ELSE MatchOf(e.p, e.b, Dbl(e), Delta(e)) } })
      [] e.op = "align" -> Motion("I07", e) \o Best("I07", e, e.c, [i \in 1..Len(e.c) |-> 1])
      [] e.op = "recover" ->
            << <<"I05:recovers the displacement",
                 (\A i \in 1..Len(e.a) : NearestOf(e.a[i], e.b, Dbl(e), 2 * Delta(e)) = e.image[i])
                 => /\ e.verdict = "converged"
                    /\ AllIn(e.x)
                    /\ \A i \in 1..Len(e.a) : \A c \in 1..e.d : Abs(e.x[i][c] - e.b[e.image[i]][c]) <= Within(e)
                    /\ SLeq(SZero, e.err) /\ SLeq(e.err, SMul(e.n * e.d, Within(e) * Within(e)))>> >>
      [] e.op = "tree" ->
            << <<"I06:the same with and without the tree", (\A i \in 1..Len(e.ps) : AllIn(e.ps[i]) /\ Unique(e.ps[i], e)) => e.off = e.on>> >>
      [] e.op = "dense" ->
            << <<"I06:the same with and without a large tree", (\A i \in 1..Len(e.ps) : \A j \in 1..Len(e.ps[i]) : OneOfGrid(e.ps[i][j], e.sides, e.gap)) => e.off = e.on>> >>
      [] e.op = "nan" -> << <<"I06:returns", e.verdict \in Verdicts>> >>
      [] e.op = "any" -> << <<"I09:a verdict", e.verdict \in {"converged", "exhausted"}>> >>
      [] e.op = "model" ->      \* a behaviour of the model
            LET t == IF e.tree THEN "I06:" ELSE "I02:" IN
            << <<t \o "the model's verdict", e.verdict = e.want.verdict>>,
               <<t \o "the model's iteration", e.verdict = "converged" => e.k = e.want.k>>,
               <<"I04:the model's errors", Len(e.errs) = Len(e.want.errs) /\ \A i \in 1..Len(e.errs) : NearErr(e.errs[i], e.want.errs[i])>>,
               <<"I04:the model's final error", e.verdict = "converged" => NearErr(e.err, e.want.errs[Len(e.want.errs)])>>,
               <<"I03:the model's motion", Close(e.byhand, e.want.final)>>,
               <<"I05:the model's motion", e.verdict = "converged" => Close(e.final, e.want.final)>> >>
      [] e.op = "builder" -> Builders(e)
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
