#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's working tree."""
import copy, json, os, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import VERIF, main

DOMAINS = {}


def domain(*props):
    def reg(f):
        for p in props:
            DOMAINS[p] = f
        return f
    return reg


# ---------------------------------------------------------------------- spatial tree
def corrupt_kd(prop):
    def f(s):
        ev = s["ev"]
        for i in reversed(range(len(ev))):
            e = ev[i]
            if prop == "K01" and e["op"] == "near" and e["r"]:
                e["r"] = [[x + 7 for x in e["r"][0]]]
            elif prop == "K02" and e["op"] == "trav" and e["seen"]:
                e["seen"] = e["seen"][1:]
            elif prop == "K03" and e["op"] in ("clone", "mut") and e["seen"]:
                e["seen"] = e["seen"] + e["seen"][:1]
            else:
                continue
            s["ev"] = ev[: i + 1]
            return s
        return None
    return f


@domain("K01", "K02", "K03")
def kd(c):
    exe = c.build("kd")
    c.model("KDTree", over={"MaxSize": 4, "Hi": 2} if not c.thorough else {"MaxSize": 5, "Hi": 2})
    c.model("KDTree", over={"D": 3, "Hi": 1, "MaxSize": 3 if not c.thorough else 6})
    if c.thorough:
        c.model("KDTree", over={"D": 1, "Hi": 6, "MaxSize": 7})
        for rule in ("linear", "always"):
            c.model("KDTree", over={"SkipRule": '"%s"' % rule}, expect="NearestRefines")
    sc = c.scripts("Gen_KD", "kd", over={"MaxSize": 3 if c.thorough else 2})
    c.scripts("Gen_KD", "kd", over={"D": 3, "Hi": 1, "MaxSize": 3 if c.thorough else 2})
    p = c.record(exe, "kd", focus=c.prop, scripts=sc, random=8000 if c.thorough else 1200, grids=0 if c.prop == "K03" else 200 if c.thorough else 24)
    if p:
        c.validate("Trace_KD", p, corrupt_kd(c.prop))


# ---------------------------------------------------------------------- point clouds
def corrupt_cloud(prop):
    def one(e):
        op = e["op"]
        if prop == "N01" and op == "near" and e["r"]:
            e["r"][0][0] += 5000
        elif prop == "L01" and op == "heavy" and e["counts"]:
            e["counts"][0] += 1
        elif prop == "L01" and op == "sort" and e["ok"] and e["r"]:
            e["r"] = e["r"][1:] + [[x + 1 for x in e["r"][0]]]
        elif prop == "L02" and op in ("sort", "hull"):
            k = "ok" if op == "sort" else "declined"
            e[k] = not e[k]
        elif prop == "L02" and op == "isnan":
            e["r"][-1] = not e["r"][-1]
        elif prop == "L02" and op == "many":
            e["declined"] = not e["declined"]
        elif prop == "D01" and op == "box":
            e["distinct"] -= 1
        elif prop == "D01" and op == "voxel" and e["res"]:
            e["res"] = e["res"] + e["res"][:1]
        elif prop == "M01" and op == "mean":
            e["r"][0] += 3 + e["tol"]
        elif prop == "M02" and op == "move" and len(e["r"]) > 1 and e["r"][0] != e["r"][1]:
            e["r"][0], e["r"][1] = e["r"][1], e["r"][0]
            if all(abs(a - b) < 10 for a, b in zip(e["r"][0], e["r"][1])):
                return False
        elif prop == "M03" and op == "gen" and e["vals"]:
            e["vals"][0][0] = [e["hi"][0][0] + 1, 0, 0]
        else:
            return False
        return True

    def f(s):
        for e in s["ev"]:
            if one(e):
                s["ev"] = [e]
                return s
        return None
    return f


CLOUD = {
    # property: (model, quick overrides, thorough overrides, defective variant, invariant it violates, random events)
    "N01": ("Scan", {}, {"D": 2, "MaxLen": 3}, {"Strict": "FALSE"}, "PrefixAnswer", 6000),
    "L01": ("Lex", {}, {"MaxLen": 4, "Codes": "{0, 1, 2}"}, None, None, 2500),
    "L02": ("Lex", {}, {"MaxLen": 3, "Codes": "{0, 1, 2, 1000000, 1000001}"}, {"CheckFirst": "FALSE"}, "Untouched", 2500),
    "D01": ("Voxel", {}, {"MaxLen": 3, "S": 3}, {"Rounding": '"trunc"'}, "Correct", 3000),
    "M01": ("Voxel", {"Lo": 0, "S": 3, "MaxLen": 3}, {"Lo": 0, "S": 4, "Hi": 3, "MaxLen": 3}, None, None, 4000),
    "M02": ("Rigid", {}, {"Reach": 3}, None, None, 3000),
    "M03": ("Draws", {}, {}, {"Shared": "TRUE"}, "Repeatable", 1500),
}


@domain(*CLOUD)
def cloud(c):
    exe = c.build("cloud")
    model, quick, thorough, bad, inv, n = CLOUD[c.prop]
    args = {}
    if model:
        c.model(model, over=thorough if c.thorough else quick)
        if bad:
            c.model(model, over=bad, expect=inv)
    if model != "Draws":
        over = {"L01": {"Codes": "{0, 1, 2}"}, "N01": {"D": 2, "MaxLen": 2}}.get(c.prop, {})
        args["scripts"] = c.scripts("Gen_" + model, "cloud", over=over)
    p = c.record(exe, "cloud", focus=c.prop, random=n * (8 if c.thorough else 1), top=(800 if c.prop[0] == "L" else 2000) if c.thorough else 300, **args)
    if p:
        c.validate("Trace_Cloud", p, corrupt_cloud(c.prop))


# ---------------------------------------------------------------------- convex hulls
def corrupt_hull(s):
    for i, e in enumerate(s["ev"]):
        if e["op"] == "hull" and e["some"]:
            e["h"] = e["h"][1:] + (e["h"][:1] if i % 2 else [])
        elif e["op"] == "hull":
            e["some"] = True
        elif e["op"] == "parabola":
            e["h"][0], e["h"][1] = e["h"][1], e["h"][0]
        elif e["op"] == "rough" and e["some"]:
            e["h"] = e["h"] + e["h"][:1]
        else:
            continue
        s["ev"] = [e]
        return s
    return None


@domain("H01", "H02", "H03", "H04")
def hull(c):
    exe = c.build("hull")
    t = c.thorough
    if c.prop != "H02":
        c.model("Graham", over={"MaxLen": 6} if t else {"MaxLen": 5})
        if t:
            c.model("Graham", over={"Hi": 3, "MaxLen": 5})
        c.model("Graham", over={"DoSort": "FALSE", "MinLen": 3}, expect="Correct")
    if c.prop in ("H02", "H04"):
        c.model("Jarvis", over={"MaxLen": 7} if t else {"MaxLen": 5})
        if t:
            c.model("Jarvis", over={"Hi": 3, "MaxLen": 5})
        c.model("Jarvis", over={"Rounding": "TRUE", "MaxLen": 4})
        c.model("Jarvis", over={"Guard": "FALSE"}, expect="Correct")
        c.model("Jarvis", over={"Rounding": "TRUE", "StopAt": '"first"', "MaxLen": 4}, expect="Bounded")
    sc = c.scripts("Gen_Jarvis", "hull", over={"MaxLen": 5 if t else 4})
    if t:
        c.scripts("Gen_Jarvis", "hull", over={"MaxLen": 4, "Hi": 3})
    p = c.record(exe, "hull", focus=c.prop, scripts=sc, random=20000 if t else 3000, top=1000 if t else 300)
    if p:
        c.validate("Trace_Hull", p, corrupt_hull)


# ---------------------------------------------------------------------- polygons
def corrupt_polygon(s):
    for e in s["ev"]:
        if e["op"] == "single" and len(e["poly"]) < 3 and e["r"]:
            e["r"][0] = True
        elif e["op"] == "single":
            e["qs"].append([9999, 9999])
            e["r"].append(True)
        elif e["op"] == "batch":
            e["some"] = not e["some"]
        elif e["op"] in ("cut", "border") and e["a"]:
            if e["op"] == "border":
                e["a"] = [not x for x in e["a"]]
                e["qs"][0] = [90000, 90000]
                e["b"][0] = not e["a"][0]
                s["ev"] = [e]
                return s
            e["a"][0] = not e["a"][0]
        elif e["op"] == "extents" and e["some"]:
            e["ext"][-1][1] += 1
        else:
            continue
        s["ev"] = [e]
        return s
    return None


@domain("P01", "P02", "P03", "P04")
def polygon(c):
    exe = c.build("pip")
    t = c.thorough
    c.model("Batch", over={"Hi": 2, "MaxLen": 3, "MaxQs": 1})
    c.model("Batch", over={"Hi": 1, "MaxLen": 5 if t else 4, "MaxQs": 1})
    if t:
        c.model("Batch", over={"Hi": 2, "MaxLen": 4, "MaxQs": 1})
        c.model("Batch", over={"Hi": 1, "MaxLen": 3, "MaxQs": 2})
        c.model("Batch", over={"Hi": 4, "MaxLen": 3, "MaxQs": 1})
    c.model("Batch", over={"Filter": '"open"', "MaxLen": 3}, expect="SameAsSingle")
    c.model("Batch", over={"Rule": '"both"', "MaxLen": 3}, expect="EvenOdd")
    args = {}
    if c.prop != "P03":
        args["scripts"] = c.scripts("Gen_Batch", "polygon", over={"MaxLen": 4 if t else 3})
    p = c.record(exe, "polygon", focus=c.prop, random=30000 if t else 4000, top=1000 if t else 300, **args)
    if p:
        c.validate("Trace_Polygon", p, corrupt_polygon)


# ---------------------------------------------------------------------- lines
def corrupt_line(s):
    for e in s["ev"]:
        if e["op"] == "line" and e["cells"]:
            e["cells"][-1][-1] += 2
        elif e["op"] == "frac":
            e["count"] += 1
        elif e["op"] == "conv":
            e["t"][-1][-1][-2] ^= 1
        elif e["op"] == "same":
            e["a"][-1][-1] += 1
        else:
            continue
        s["ev"] = [e]
        return s
    return None


@domain("B01", "B02", "B03")
def line(c):
    exe = c.build("line")
    t = c.thorough
    c.model("Raster", over={"Reach": 20 if t else 12})
    c.model("Raster", over={"N": 3, "Reach": 7 if t else 4})
    c.model("Raster", over={"N": 1, "Reach": 30})
    if t:
        c.model("Raster", over={"N": 4, "Reach": 4})
    c.model("Raster", over={"Threshold": '"late"', "Reach": 4}, expect="OnIdeal")
    c.model("Raster", over={"Drift": 1, "Reach": 8}, expect="OnIdeal")
    args = {}
    if c.prop != "B03":
        args["scripts"] = c.scripts("Gen_Raster", "line", over={"Reach": 12 if t else 7})
        c.scripts("Gen_Raster", "line", over={"N": 3, "Reach": 4 if t else 3})
        args["long"] = 12 if t else 2
    p = c.record(exe, "line", focus=c.prop, random=20000 if t else 2500, limit=120, **args)
    if p:
        c.validate("Trace_Line", p, corrupt_line)


# ---------------------------------------------------------------------- geography
def corrupt_geo(s):
    for e in s["ev"]:
        if e["op"] == "dist":
            if e["prec"] == "f64" and e["half"] < 12000000 and 100 < e["fine"][1] < 16000000:
                e["fine"][1] += 1000
            else:
                e["half"] = e["half"] + 60000 if e["half"] < 6000000 else e["half"] - 60000
        elif e["op"] == "rel":
            e["x"] += 400000
        elif e["op"] in ("meridian", "parallel"):
            e["m"] += 5000
        elif e["op"] == "detour":
            e["ac"] = e["ab"] + e["bc"] + 5000
        elif e["op"] in ("bear", "nearbear"):
            e["q"] = 4
        elif e["op"] == "cardinal":
            e["dev"] += 11
        elif e["op"] == "mirror":
            e["r1"] += 100 if e["r1"] < 10000 else -100
        else:
            continue
        s["ev"] = [e]
        return s
    return None


@domain("G01", "G02")
def geo(c):
    exe = c.build("geo")
    t = c.thorough
    c.model("Haversine", over={"Grid15": 1 if t else 3})
    c.model("Haversine", over={"Grid15": 3 if t else 6, "Stops": 3})
    c.model("Haversine", over={"Formula": '"nocos"', "Grid15": 3}, expect="Symmetric")
    sc = c.scripts("Gen_Haversine", "geo", over={"Grid15": 2 if t else 3})
    c.scripts("Gen_Haversine", "geo", over={"Grid15": 6 if not t else 4, "Stops": 3})
    p = c.record(exe, "geo", focus=c.prop, scripts=sc, random=60000 if t else 4000)
    if p:
        c.validate("Trace_Geo", p, corrupt_geo)


# ---------------------------------------------------------------------- registration
def corrupt_icp(prop):
    def off(xs, by):
        xs[-1][-1] += by

    def one(e):
        op = e["op"]
        if op == "req" and prop == "I01":
            e["verdict"] = "Interval" if e["verdict"] != "Interval" else "exhausted"
        elif op == "run" and prop == "I02":
            if e["verdict"] == "converged":
                e["k"] += 1
            else:
                e["budget"] += 1
        elif op == "run" and prop == "I04" and len(e["fixed"]) > 1:
            h = e["fixed"][0][0]
            e["fixed"][-1] = [h + h // 8 + 2 ** 28, 0]
        elif op == "model" and prop == "I02" and not e["tree"]:
            e["verdict"] = "exhausted" if e["verdict"] == "converged" else "converged"
        elif op == "model" and prop == "I06" and e["tree"]:
            e["verdict"] = "neither"
        elif op == "model" and prop == "I04" and e["errs"]:
            e["errs"][-1] += 16 + abs(e["errs"][-1]) // 1000
        elif op == "model" and prop == "I03":
            off(e["byhand"], 32)
        elif op == "model" and prop == "I05" and e["verdict"] == "converged":
            off(e["final"], 32)
        elif op == "iter" and prop == "I03":
            e["rot"][0] = [-x for x in e["rot"][0]]
        elif op == "iter" and prop == "I04":
            e["err"] = [-1, 0]
        elif op == "align" and prop == "I07":
            e["rot"][0] = [-x for x in e["rot"][0]]
        elif op == "recover" and prop == "I05" and len(e["a"]) == 1:
            e["verdict"] = "exhausted"
        elif op == "tree" and prop == "I06" and len(e["b"]) == 1:
            e["on"] = ["neither"]
        elif op == "dense" and prop == "I06" and not e["on"][0].startswith("n") and e["plain"]:
            e["on"] = ["neither"]
        elif op in ("nan", "any") and prop in ("I06", "I09"):
            e["verdict"] = "NoNeighbour"
        elif op == "builder" and prop == "I08":
            o = e["builders"][0 if any(x["kind"] == "budget" and x["v"] > 6 for x in e["ops"]) else -1]
            o["verdict"] = "exhausted" if o["verdict"] == "converged" else "converged"
        else:
            return False
        return True

    def f(s):
        for e in s["ev"]:
            if one(e):
                s["ev"] = [e]
                return s
        return None
    return f


ICP_RANDOM = {"I01": 1500, "I02": 2500, "I03": 2500, "I04": 2500, "I05": 2500, "I06": 2500, "I07": 5000, "I08": 0, "I09": 8000}


@domain(*ICP_RANDOM)
def registration(c):
    exe = c.build("icp")
    t = c.thorough
    args = {}
    if c.prop == "I01":
        args["scripts"] = c.scripts("Gen_Request", "icp")
    elif c.prop == "I08":
        c.model("Builder", over={"MaxOps": 6 if t else 5})
        c.model("Builder", over={"MaxOps": 4, "Variant": '"shared"'}, expect="LastWrite")
        c.model("Builder", over={"MaxOps": 4, "Variant": '"resets"'}, expect="LastWrite")
        args["scripts"] = c.scripts("Gen_Builder", "icp", over={"MaxOps": 4 if t else 3})
        c.scripts("Gen_Builder", "icp", extra=["-seed", str(c.seed)],
                  over={"Walks": 2000 if t else 250, "MaxOps": 12, "Budgets": "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}",
                        "Absolutes": "{0, 1, 2, 3, 4}", "Intervals": "{1, 2, 3, 4}"})
    elif c.prop != "I09":
        small = {} if t else {"Shifts": "{0, 1}", "SrcHi": 2, "Budgets": "{2}"}
        c.model("ICP", over=small)
        c.model("ICP", over={"N": 3, "SrcHi": 1, "Budgets": "{1, 3}", "Absolutes": "{0}", "Intervals": "{1}"})
        if t:
            c.model("ICP", over={"D": 3, "N": 3, "SrcHi": 1, "Shifts": "{0, 2}", "Budgets": "{2}", "Absolutes": "{0}", "Intervals": "{1}"})
        for bad, inv in {"I02": (("late", "Numbered"), ("firststop", "Stops")), "I03": (("transposed", "Optimal"),),
                         "I07": (("transposed", "Optimal"),), "I04": (("stale", "TrueResidual"),)}.get(c.prop, ()):
            c.model("ICP", over={"Variant": '"%s"' % bad, "Shifts": "{0, 1}", "SrcHi": 1}, expect=inv)
        if c.prop != "I07":
            args["scripts"] = c.scripts("Gen_ICP", "icp", over={} if t else {"Shifts": "{0, 4}", "Budgets": "{2}"})
            c.scripts("Gen_ICP", "icp", over={"N": 3, "SrcHi": 1 if not t else 2, "Budgets": "{1, 3}", "Absolutes": "{0}", "Intervals": "{1}"})
            c.scripts("Gen_ICP", "icp", over={"Extra": 1, "TgtHi": 3, "Shifts": "{0, 3}" if t else "{3}", "Budgets": "{4}", "SrcHi": 2 if t else 1})
            if t:
                c.scripts("Gen_ICP", "icp", over={"D": 3, "N": 3, "SrcHi": 1, "Shifts": "{0, 2}", "Budgets": "{2}", "Absolutes": "{0}", "Intervals": "{1}"})
    p = c.record(exe, "icp", focus=c.prop, random=ICP_RANDOM[c.prop] * (10 if t else 1), **args)
    if p:
        c.validate("Trace_ICP", p, corrupt_icp(c.prop))


# ---------------------------------------------------------------------- other ways to the same results
# (binary, focus, random events, specification, falsifier, identical without the standard library)
SESSIONS = [
    ("kd", "K01", 400, "Trace_KD", corrupt_kd("K01"), True),
    ("kd", "K02", 300, "Trace_KD", corrupt_kd("K02"), True),
    ("kd", "K03", 300, "Trace_KD", corrupt_kd("K03"), True),
    ("cloud", "N01", 1500, "Trace_Cloud", corrupt_cloud("N01"), True),
    ("cloud", "L01", 1000, "Trace_Cloud", corrupt_cloud("L01"), True),
    ("cloud", "L02", 1000, "Trace_Cloud", corrupt_cloud("L02"), True),
    ("cloud", "D01", 1500, "Trace_Cloud", corrupt_cloud("D01"), True),
    ("cloud", "M01", 1000, "Trace_Cloud", corrupt_cloud("M01"), True),
    ("cloud", "M02", 800, "Trace_Cloud", corrupt_cloud("M02"), True),
    ("cloud", "M03", 400, "Trace_Cloud", corrupt_cloud("M03"), None),
    ("hull", "H01", 1200, "Trace_Hull", corrupt_hull, True),
    ("hull", "H02", 800, "Trace_Hull", corrupt_hull, True),
    ("hull", "H03", 1200, "Trace_Hull", corrupt_hull, None),
    ("hull", "H04", 1500, "Trace_Hull", corrupt_hull, True),
    ("pip", "P01", 1200, "Trace_Polygon", corrupt_polygon, True),
    ("pip", "P02", 1500, "Trace_Polygon", corrupt_polygon, True),
    ("pip", "P03", 800, "Trace_Polygon", corrupt_polygon, True),
    ("pip", "P04", 800, "Trace_Polygon", corrupt_polygon, True),
    ("line", "B01", 1200, "Trace_Line", corrupt_line, True),
    ("line", "B03", 1800, "Trace_Line", corrupt_line, True),
    ("geo", "G01", 1500, "Trace_Geo", corrupt_geo, False),
    ("geo", "G02", 1500, "Trace_Geo", corrupt_geo, False),
    ("icp", "I01", 600, "Trace_ICP", corrupt_icp("I01"), False),
    ("icp", "I02", 800, "Trace_ICP", corrupt_icp("I02"), False),
    ("icp", "I03", 600, "Trace_ICP", corrupt_icp("I03"), False),
    ("icp", "I05", 800, "Trace_ICP", corrupt_icp("I05"), False),
    ("icp", "I06", 600, "Trace_ICP", corrupt_icp("I06"), False),
    ("icp", "I07", 800, "Trace_ICP", corrupt_icp("I07"), False),
    ("icp", "I09", 1500, "Trace_ICP", corrupt_icp("I09"), False),
]
READY = ("I01", "I02", "I05", "I06", "H01", "H02", "H03", "H04", "P01", "P02", "P04", "B01", "B03", "G01", "G02")


def corrupt_same(s):
    e = s["ev"][0]
    if e["op"] == "pair":
        e["b"] += " "
        e["rest"][1] += " "
    elif e["op"] == "names":
        e["names"] = e["names"][1:]
    else:
        e["b"] += 1
    s["ev"] = [e]
    return s


def session(c, exes, s, name, **more):
    b, focus, n, _, _, _ = s
    return c.record(exes[b], name, focus=focus, random=n * (6 if c.thorough else 1),
                    top=1000 if c.thorough else 300, limit=120, **more)


def judge(c, recorded):
    """Validates recordings of the same specification together: (session kind, path)."""
    kinds = []
    for s, _ in recorded:
        if s[3] not in kinds:
            kinds.append(s[3])
    for k in kinds:
        mine = [(s, p) for s, p in recorded if s[3] == k]
        all_lines, owner = [], {}
        for s, p in mine:
            for x in open(p).read().split("\n"):
                if x:
                    owner[len(all_lines)] = s
                    all_lines.append(x)
        path = os.path.join(c.work, k + ".ndjson")
        open(path, "w").write("\n".join(all_lines) + "\n")
        falsify = {}
        for s, _ in mine:
            falsify.setdefault(s[4], None)

        def any_of(x):
            for f in falsify:
                y = f(copy.deepcopy(x))
                if y is not None:
                    return y
            return None
        c.validate(k, path, any_of, any_clause=True)


@domain("X01")
def ready_made(c):
    exes = {b: c.build(b) for b in ("hull", "pip", "line", "geo", "icp")}
    recorded, runs, names = [], [], set()
    for s in SESSIONS:
        if s[1] not in READY:
            continue
        pre = session(c, exes, s, "pre-" + s[1], pre=1)
        if not pre:
            return
        names |= set(open(pre + ".names").read().split("\n"))
        recorded.append((s, pre))
        if s[1] != "H03":       # the order in which voxels are visited is not determined
            gen = session(c, exes, s, "gen-" + s[1])
            if gen:
                runs.append((s[1], gen, pre))
    judge(c, recorded)
    p = c.pairs("same", runs)
    with open(p, "a") as f:
        f.write(json.dumps({"ev": [{"op": "names", "names": sorted(names)}]}) + "\n")
    c.validate("Trace_Same", p, corrupt_same, any_clause=True)


COMBINATIONS = ["", "std", "pregenerated", "tracing", "std,pregenerated", "std,tracing", "pregenerated,tracing",
                "std,pregenerated,tracing"]


@domain("X02")
def builds(c):
    bins = ("kd", "cloud", "hull", "pip", "line", "geo", "icp")
    for f in COMBINATIONS:
        r = subprocess.run(["cargo", "check", "--offline", "--locked", "--quiet", "--manifest-path", "/repo/crates/mapping-algorithms/Cargo.toml",
                            "--no-default-features", "--features", f, "--target-dir", os.path.join(VERIF, ".build", "combinations")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            c.violation("the library does not build with the features [%s]" % f, {"output": r.stdout[-3000:]})
            return
    c.notes.append("built with each of the feature combinations " + "; ".join("[%s]" % f for f in COMBINATIONS))
    default = {b: c.build(b) for b in bins}
    tracing = {b: c.build(b, features="tracing", target="tracing") for b in bins}
    core = {b: c.build(b, features="pregenerated", default_features=False, target="nostd") for b in bins}
    runs = []
    base = {}
    for s in SESSIONS:
        base[s[1]] = session(c, default, s, "default-" + s[1])
        if not base[s[1]]:
            return
    for name, exes in (("tracing", tracing), ("nostd", core)):
        recorded = []
        for s in SESSIONS:
            p = session(c, exes, s, name + "-" + s[1])
            if not p:
                return
            recorded.append((s, p))
            if s[5] if name == "nostd" else s[5] is not None:
                runs.append((name + " " + s[1], base[s[1]], p))
        if name == "nostd" or c.thorough:
            judge(c, recorded)
    c.validate("Trace_Same", c.pairs("same", runs), corrupt_same, any_clause=True)


if __name__ == "__main__":
    sys.exit(main(DOMAINS))
