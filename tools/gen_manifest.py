#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of built checks below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into, and recorded sessions of, the real code validated against it"
COMMON = ("TLC exhausts the small models of the specification; for the code it decides only the executions it "
          "observes (behaviours generated from the specification plus seeded random sessions), each of which TLC "
          "checks against the specification. Trusted: TLC, rustc, and the harness's exact mapping between lattice "
          "integers and coordinates. ")
N = {
    "K01": "Sessions cover dimensions 1 to 6, f32/f64/i32/i64, scales 2^-400 to 2^400, trees of 0 to 1500 points; distances are exact in the chosen embeddings, so any minimal point is accepted and nothing else.",
    "K02": "Same sessions as K01; contents are compared as sets through len, is_empty and traversal.",
    "K03": "Edits are per-axis maps, order-keeping or not; after one that is not, only contents and size are checked.",
    "N01": "Lists of 0 to 300 points (2000 thorough), dimensions 1 to 5, f32/f64/i32/i64, exact distances with many ties.",
    "L01": "All 14 numeric types, dimensions 1 to 5, special values, both zeros, ties, presorted and reversed input, up to 300 points.",
    "L02": "NaNs of both signs and several payloads in any position; the three sorts, the sorting hull and the NaN test itself for all 14 types.",
    "D01": "f32/f64 in all four combinations with the voxel precision, dimensions 1 to 4, negative and huge voxel indices; means are compared exactly or to 1/500 of a lattice unit.",
    "M01": "f32/f64, dimensions 1 to 4, 0 to 300 points (2000 thorough); the mean is compared to 1/500 of a lattice unit.",
    "M02": "2D and 3D, rotations as unit complex/quaternion and as matrices, rational rotations, exact to 1/100 of a lattice unit.",
    "M03": "Six sample types, dimensions 1 to 4, degenerate and one-ulp ranges; repeated in the same thread, another thread and another process. The model of the generator is abstract: only size, range and repeatability are specified.",
    "H01": "The four main point types with both precisions, lattice coordinates up to 16000 (determinants exact), up to 300 points (1000 thorough), many collinear, repeated and boundary-heavy clouds.",
    "H02": "As H01; for arbitrary floating point clouds (rounding in the determinants) only termination and that the vertices are input points, each once, is specified.",
    "H03": "Clouds whose voxel means are whole numbers (multiples of 60, at most six per voxel); point types f32, f64, i32, i64 and u32 with both precisions.",
    "H04": "All 12 point types with both precisions, coordinates placed at the ends of the type's range.",
    "P01": "f32 and f64, lattice coordinates for which the crossing arithmetic separates all lattice points (reach 500 in f32, 4000 in f64), polygons of 0 to 300 vertices (1000 thorough) of every kind.",
    "P02": "Arbitrary finite coordinates, points on and within a few ulps of edges and vertices; the comparison with the single query is exact.",
    "P03": "f32 and f64, 1 to 6 dimensions, coordinates compared by rank, so exactly, up to the largest finite values.",
    "P04": "Arbitrary finite coordinates, random chords, points on and within a few ulps of the chord, the edges and the vertices; the comparison is exact.",
    "B01": "One to five dimensions, both precisions, six precision/output pairs, offsets up to the end of the whole-number range, up to 6000 cells in full and lines of 8 to 16 million cells in windows; fractional endpoints in multiples of 2^-10.",
    "B02": "As B01, whole-number endpoints; the strip is one cell wide, so the specification determines every cell.",
    "B03": "All twelve output types from both precisions, values at and beyond the ends of each type's range, fractions in multiples of 2^-6; offsets over the whole range of whole numbers.",
    "G01": "Positions in multiples of 2^-15 degree; the specification computes the angle from chords in 23-bit fixed-point arithmetic, so absolute agreement is to about 3e-6 radians (1e-5 in single precision); symmetry, proportionality, additivity and short distances are compared relatively (6e-8; 3e-6 in single precision).",
    "G02": "As G01; directions agree to about 3e-6 divided by the sine of the distance, cardinal directions to 1e-11 (1e-5 in single precision), neighbours on the flat map to 0.2% (1%).",
    "I01": "All combinations of the five flaws with thresholds at, next to and far from the machine epsilon, in all four dimension/precision pairs.",
    "I02": "Errors and thresholds are compared bit for bit with single iterations run by hand; thresholds are placed at and one ulp from errors that occur. Lattice registrations of the model are followed exactly.",
    "I03": "The optimum is decided by its criterion (coinciding centroids, symmetric and dominant cross-covariance) in fixed-point arithmetic, to the accuracy of the library's singular value decomposition (2^-24 of the covariance in f64, 2^-13 in 2D f32, 2^-8 in 3D f32); the lattice model is followed exactly.",
    "I04": "Errors to 2^-16 (f32) or 2^-24 (f64) of the residual; descent up to the accuracy stated for I03.",
    "I05": "Up to 24 points, images to a few ulps of the coordinates (3D f32: 1/256 of the extent, the accuracy of the decomposition); clouds for which the image is nearest beyond doubt.",
    "I06": "Bit-for-bit comparison of both runs whenever every pairing is unique beyond rounding; NaN targets with the tree off.",
    "I07": "As I03, plus exact and near half turns, mirrored, planar, collinear and single-point data, scales from 2^-58 to 2^36 (f32) and 2^-400 to 2^400 (f64).",
    "I08": "All call histories of up to 4 calls (5 thorough) and random ones of 12 calls, observed by running registrations that tell every option value apart and by comparing the configurations' debug output.",
    "I09": "Random clouds of special values; only that a verdict is reached is specified.",
    "X01": "The sessions of fifteen other properties run through the 92 pre-generated functions (the specification lists them and rejects a run that misses one), validated against the same specifications and compared textually with the generic run.",
    "X02": "Sessions of all algorithms in three builds (default, without std, tracing with a listener that reads every field); the no_std recordings (thorough: also the tracing ones) are validated against the specifications, and compared with the default build wherever elementary functions play no part. The eight feature combinations are compiled, not run.",
}
built = list(N)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if i in N:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T,
                       "level": "model_checking", "level_note": COMMON + N[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API. Repairs in /repo are the commits starting with fix:."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
