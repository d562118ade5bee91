----------------------------- MODULE Trace_Line -----------------------------
(* Validates recorded lines against Line.                                     *)
EXTENDS Line, TraceLib

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

\* The limits of an output type with b value bits.
Lo(signed, b) == IF signed THEN WNegPow(b) ELSE WZero
Converted(e, x) == IF e.bits = 0 THEN x ELSE WClamp(WTrunc(x), Lo(e.signed, e.bits), WBelow(e.bits))

Clauses(e) ==
    CASE e.op = "line" ->           \* the cells from number `from` on; all of them, or a window of a long line
            LET n == Len(e.cells) D == Longest(e.s, e.e) IN
            << <<"B01:number of cells", e.count = D + 1>>,
               <<"B01:starts at the start", e.from = 0 => n > 0 /\ e.cells[1] = e.s>>,
               <<"B01:ends at the end", e.from + n = e.count => n > 0 /\ e.cells[n] = e.e>>,
               <<"B01:connected", \A i \in 1..(n - 1) : StepOk(e.s, e.e, e.cells[i], e.cells[i + 1])>>,
               <<"B02:close to the ideal", e.from + n <= D + 1 => \A i \in 1..n : OnCourse(e.s, e.e, e.from + i - 1, e.cells[i])>>,
               <<"B02:all cells", e.from + n <= D + 1>> >>
      [] e.op = "frac" ->           \* distances in units of 1/e.unit
            << <<"B01:number of cells (fractional endpoints)", e.count = (MaxSeq(e.deltas) \div e.unit) + 1>>,
               <<"B01:last cell (fractional endpoints)", e.last>> >>
      [] e.op = "model" ->          \* a line of the machine, and the code's
            << <<"B02:the machine's cells", e.cells = e.want>> >>
      [] e.op = "conv" ->           \* cells in the coordinate type, and in the output type
            << <<"B03:converted cells", /\ Len(e.f) = Len(e.t)
                                        /\ \A i \in 1..Len(e.f) : \A a \in 1..Len(e.f[i]) :
                                              e.t[i][a] = Converted(e, e.f[i][a])>> >>
      [] e.op = "same" ->
            << <<"B03:" \o e.what, e.a = e.b>> >>
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
