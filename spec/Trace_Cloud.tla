----------------------------- MODULE Trace_Cloud -----------------------------
(* Validates recorded calls of the point cloud functions against Cloud.      *)
EXTENDS Cloud, TraceLib

VARIABLES sid, l
tvars == <<sid, l>>
Ev == Sessions[sid].ev

Init == sid \in 1..Len(Sessions) /\ l = 1

InRange(lo, hi, p) == \A a \in 1..Len(p) : LexLeq(lo[a], p[a]) /\ LexLeq(p[a], hi[a])

Clauses(e) ==
    CASE e.op = "near" -> << <<"N01:first nearest", FirstNearest(e.pts, e.q, e.r)>> >>
      [] e.op = "sort" ->
            LET nan == HasNaN(e.pts) IN
            << <<"L02:declines exactly on NaN", e.ok = ~nan>>,
               <<"L02:input untouched when declining", nan => e.after = e.pts>>,
               <<"L01:sorted permutation", nan \/ SortResult(e.pts, e.ok, e.r)>>,
               <<"L01:copying leaves the input untouched", nan \/ e.v = "inplace" \/ e.after = e.pts>>,
               <<"L01:in place changes the slice itself", nan \/ e.v # "inplace" \/ e.after = e.r>>,
               <<"L01:references to each element once",
                 nan \/ e.v # "ref" \/ (/\ Len(e.idx) = Len(e.pts)
                                        /\ ToSet(e.idx) = 1..Len(e.pts)
                                        /\ \A j \in 1..Len(e.idx) : e.r[j] = e.pts[e.idx[j]])>> >>
      [] e.op = "heavy" ->
            << <<"L01:sorted permutation of many points", e.ok /\ SortedRuns(e.pts, e.reps, e.runs, e.counts)>>,
               <<"L01:each element once", e.distinct = SumSeq(e.reps)>>,
               <<"L01:copying leaves the input untouched", e.untouched>> >>
      [] e.op = "many" ->
            << <<"L02:declines exactly on NaN, wherever it is", e.declined = (e.nans > 0)>>,
               <<"L02:many points untouched when declining", e.nans = 0 \/ e.untouched>> >>
      [] e.op = "isnan" -> << <<"L02:is_nan", \A j \in 1..Len(e.c) : e.r[j] = IsNaN(e.c[j])>> >>
      [] e.op = "hull"  -> << <<"L02:sorting hull declines on NaN", HasNaN(e.pts) => e.declined>>,
                              <<"L02:hull does not decline without NaN", ~HasNaN(e.pts) => ~e.declined>>,
                              <<"L02:hull input untouched", e.after = e.pts>> >>
      [] e.op = "voxel" -> << <<"D01:one centroid per occupied voxel", Downsampled(e.pts, e.reps, e.s, e.res, e.quant, e.tol)>>,
                              <<"D01:same for another order of the points",
                                IF e.exact THEN SameBag(e.res, e.res2) ELSE Downsampled(e.pts, e.reps, e.s, e.res2, e.quant, e.tol)>> >>
      [] e.op = "ivoxel" -> << <<"D01:one centroid per occupied voxel, in whole numbers", DownsampledWhole(e.pts, e.s, e.res)>> >>
      [] e.op = "box" -> << <<"D01:one centroid for each of many voxels", DownsampledBox(e)>> >>
      [] e.op = "borders" -> << <<"D01:borders belong to the upper voxel",
                                e.count = Cardinality({ IF c[2] < 0 THEN c[1] - 1 ELSE c[1] : c \in ToSet(e.cells) })>> >>
      [] e.op = "imean" -> << <<"M01:mean of the points, in whole numbers",
                                IF e.pts = <<>> THEN \A a \in 1..Len(e.r) : e.r[a] = 0 ELSE IsWholeMean(e.pts, e.r)>> >>
      [] e.op = "mean"  -> << <<"M01:mean of the points",
                                IF e.pts = <<>> THEN \A a \in 1..Len(e.r) : e.r[a] = 0
                                ELSE IsMean(e.pts, e.reps, e.r, e.quant, e.tol)>> >>
      [] e.op = "move"  -> << <<"M02:one image per point, in order",
                                /\ e.n = SumSeq(e.reps) /\ Len(e.r) = Len(e.pts)
                                /\ Assert(Proper(e.m, e.w), "the driver must use proper rotations")
                                /\ \A j \in 1..Len(e.pts) : IsMoved(e.m, e.w, e.t, e.pts[j], e.r[j], e.quant, e.tol)>>,
                              <<"M02:input untouched", e.after = e.pts>> >>
      [] e.op = "gen"   -> << <<"M03:requested size", Len(e.vals) = e.n>>,
                              <<"M03:coordinates in range", \A j \in 1..Len(e.vals) : InRange(e.lo, e.hi, e.vals[j])>>,
                              <<"M03:repeatable", e.again = e.vals /\ e.elsewhere = e.vals>> >>
      [] e.op = "genmany" -> << <<"M03:requested size", e.count = e.n /\ e.half = e.n \div 2>>,
                              <<"M03:coordinates in range", InRange(e.lo, e.hi, e.min) /\ InRange(e.lo, e.hi, e.max)>>,
                              <<"M03:repeatable", e.again = e.digest /\ e.elsewhere = e.digest>> >>
      [] e.op = "fail"  -> << <<e.p \o ":returns", FALSE>> >>

Next == /\ l <= Len(Ev)
        /\ Report(sid, l, Failing(Clauses(Ev[l])))
        /\ l' = l + 1
        /\ UNCHANGED sid

Spec == Init /\ [][Next]_tvars
=============================================================================
