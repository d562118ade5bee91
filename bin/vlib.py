"""Shared driver: builds the harness, runs TLC, validates recorded sessions, writes evidence."""
import itertools, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(msg):
    print(msg, flush=True)


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = 0          # distinct states of the specification models
        self.transitions = 0
        self.models = []         # per model run
        self.traces = 0          # sessions of the real code validated
        self.events = 0
        self.validation = []     # per trace run
        self.samples = []
        self.violations = []     # (what, replay path)
        self.notes = []
        self.assumptions = []
        self.known = []
        self.pool = ThreadPoolExecutor(4)       # model runs and builds
        self.pending = []
        self.parts = []          # (scripts file, part) in the order they were asked for
        self.number = itertools.count(1)
        self.lock = threading.Lock()

    def later(self, f, *a, **k):
        self.pending.append(self.pool.submit(f, *a, **k))

    def join(self):
        """Waits for the builds and model runs that were started."""
        while self.pending:
            self.pending.pop(0).result()
        for out, part in self.parts:
            with open(out, "a") as f:
                f.write(open(part).read())
        self.parts = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ build
    def build(self, binary, features=None, default_features=True, target="default"):
        tdir = os.path.join(VERIF, ".build", target)
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", binary, "--target-dir", tdir]
        if not default_features:
            cmd.append("--no-default-features")
        if features:
            cmd += ["--features", features]
        def run():
            r = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
        self.later(run)
        return os.path.join(tdir, "debug", binary)

    # ------------------------------------------------------------------ the real code
    def record(self, exe, name, limit=20, timeout=600, **args):
        """Runs a harness binary; returns the path of the sessions, or None after a runaway or crash."""
        self.join()
        out = os.path.join(self.work, name + ".ndjson")
        argv = [exe, "run", "out=" + out, "seed=%d" % self.seed, "tier=" + self.tier, "limit=%d" % limit]
        argv += ["%s=%s" % kv for kv in args.items()]
        try:
            r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s exceeded %d s" % (name, timeout))
        if r.returncode == 0:
            return out
        what, ctx = None, ""
        if r.returncode == 97 and os.path.exists(out + ".runaway"):
            lines = open(out + ".runaway").read().split("\n", 1)
            what = {"time": "a call does not return within %d s" % limit,
                    "memory": "a call allocates without bound"}.get(lines[0], lines[0])
            ctx = lines[1] if len(lines) > 1 else ""
        elif r.returncode < 0 or r.returncode in (134, 139):
            what = "a call crashes the process (signal %d)" % abs(r.returncode)
            if os.path.exists(out + ".inflight"):
                ctx = open(out + ".inflight", errors="replace").read().split("\n")[0]
        if what is None or not ctx:
            raise ToolError("harness %s failed with %d:\n%s" % (name, r.returncode, r.stdout[-3000:]))
        self.violation(what, {"call": ctx, "command": argv})
        return None

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=840, heap="5g", extra=None, simulate=None):
        meta = os.path.join(self.work, "tlc-%s-%d" % (module, next(self.number)))
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", TLA, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
        cmd += extra or []
        cmd.append(module + ".tla")
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s exceeded %d s" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", r.stdout)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (None, None)
        return r, gen, dist

    def cfg(self, name, over=None, only=None):
        """A copy of spec/<name>.cfg with some constants replaced."""
        s = open(os.path.join(SPEC, name + ".cfg")).read()
        for k, v in (over or {}).items():
            s, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), s)
            if n != 1:
                raise ToolError("constant %s not in %s.cfg" % (k, name))
        if only and re.search(r"(?m)^INVARIANTS?\b.*\b%s\b" % only, s):
            s = re.sub(r"(?m)^INVARIANTS?\b.*$", "INVARIANT " + only, s)
            s = re.sub(r"(?m)^PROPERTY\b.*$", "", s)
        p = os.path.join(self.work, "%s-%d.cfg" % (name, next(self.number)))
        open(p, "w").write(s)
        return p

    def model(self, module, cfg=None, over=None, expect=None, **kw):
        """Model checks the specification. `expect` names an invariant that must be violated."""
        self.later(self.check_model, module, cfg, over, expect, **kw)

    def check_model(self, module, cfg=None, over=None, expect=None, **kw):
        t = time.time()
        r, gen, dist = self.tlc(module, self.cfg(cfg or "MC_" + module, over, expect), **kw)
        if expect:
            if "Invariant %s is violated" % expect not in r.stdout and \
               "property %s is violated" % expect not in r.stdout and \
               "Temporal properties were violated" not in r.stdout:
                raise ToolError("%s: the defective variant %s does not violate %s:\n%s"
                                % (module, over, expect, r.stdout[-3000:]))
            with self.lock:
                self.models.append({"model": module, "variant": over, "violates": expect})
            log("  model %s with %s violates %s, as it must" % (module, over, expect))
            return r
        if r.returncode != 0 or dist is None:
            raise ToolError("TLC reports an error in the specification %s:\n%s" % (module, r.stdout[-4000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({"model": module, "constants": over or {}, "distinct_states": dist,
                                "transitions": gen, "seconds": round(time.time() - t, 1)})
        log("  model %s %s: %d distinct states, %d transitions" % (module, over or "", dist, gen))
        return r

    def scripts(self, module, name, cfg=None, over=None, workers=1, **kw):
        """Behaviours generated by TLC from the specification, one JSON value per line."""
        out = os.path.join(self.work, name + ".scripts")
        part = "%s-%d" % (out, next(self.number))
        self.parts.append((out, part))

        def run():
            r = self.check_model(module, cfg or module, over, workers=workers, **kw)
            n = 0
            with open(part, "w") as f:
                for line in r.stdout.split("\n"):
                    if line.startswith('"SCRIPT '):
                        f.write(json.loads(line)[7:] + "\n")
                        n += 1
            if n == 0:
                raise ToolError("%s generated no behaviours" % module)
            log("  %d behaviours generated from %s" % (n, module))
        self.later(run)
        return out

    # ------------------------------------------------------------------ code -> specification
    def validate(self, module, path, corrupt=None, cfg="Trace", count=None, env=None, any_clause=False):
        """Validates recorded sessions against the specification.

        `corrupt(session)` returns a falsified copy (or None); some falsified copies are validated along
        with the real sessions and must be rejected, which shows that the validation is not vacuous.
        """
        lines = [x for x in open(path).read().split("\n") if x]
        if not lines:
            raise ToolError("no sessions recorded in " + path)
        sessions = [json.loads(x) for x in lines]
        fakes = []
        if corrupt:
            step = max(1, len(sessions) // 40)
            for i in range(0, len(sessions), step):
                c = corrupt(json.loads(lines[i]))
                if c is not None:
                    fakes.append((i, c))
            if not fakes:
                raise ToolError("no falsified session could be made for " + module)
        allp = os.path.join(self.work, os.path.basename(path) + ".all")
        with open(allp, "w") as f:
            for x in lines:
                f.write(x + "\n")
            for _, c in fakes:
                f.write(json.dumps(c) + "\n")
        t = time.time()
        e = {"TRACE": allp, "PROP": self.prop}
        e.update(env or {})
        r, gen, dist = self.tlc(module, os.path.join(SPEC, cfg + ".cfg"), env=e, workers=8, heap="8g")
        if r.returncode != 0 or dist is None:
            raise ToolError("TLC could not evaluate the sessions with %s:\n%s" % (module, "\n".join(x for x in r.stdout.split("\n") if not x.startswith('"REJECT'))[-3000:]))
        total = 0
        for s in sessions + [c for _, c in fakes]:
            total += 1 + (count(s) if count else len(s["ev"]))
        if dist != total:
            raise ToolError("%s consumed %d states, the sessions have %d" % (module, dist, total))
        rejected_fakes, other, mine = set(), 0, {}
        for line in r.stdout.split("\n"):
            if line.startswith('"REJECT '):
                j = json.loads(json.loads(line)[7:])
                sid = j["sid"] - 1
                bad = [b for b in j["bad"] if any_clause or b.startswith(self.prop + ":")]
                if not bad:
                    other += 1
                    continue
                if sid >= len(sessions):
                    rejected_fakes.add(sid)
                elif sid not in mine or j["l"] < mine[sid][0]:
                    mine[sid] = (j["l"], bad)
        missed = [i for i in range(len(fakes)) if len(sessions) + i not in rejected_fakes]
        if missed and not mine:
            i = missed[0]
            raise ToolError("%s accepts a falsified session: %s" % (module, json.dumps(fakes[i][1])[:3000]))
        ev = sum(len(s["ev"]) if "ev" in s else 1 for s in sessions)
        self.traces += len(sessions)
        self.events += ev
        self.validation.append({"spec": module, "sessions": len(sessions), "events": ev,
                                "falsified_sessions_rejected": len(rejected_fakes), "distinct_states": dist,
                                "rejected": len(mine), "seconds": round(time.time() - t, 1)})
        log("  %s: %d sessions (%d events) validated, %d falsified ones rejected"
            % (module, len(sessions), ev, len(rejected_fakes)))
        for s in (lines[0], lines[len(lines) // 2], lines[-1])[: 1 if self.samples else 3]:
            self.samples.append(s if len(s) < 600 else s[:600] + " ...")
        for sid in sorted(mine)[:5]:
            l, bad = mine[sid]
            s = sessions[sid]
            if self.excused(s, l, bad):
                continue
            self.violation("; ".join(bad), {"session": s, "event": l,
                                            "at": s["ev"][l - 1] if "ev" in s and l <= len(s["ev"]) else None,
                                            "spec": module})
        if other:
            log("  (%d rejected events concern other properties)" % other)

    def pair(self, what, p, q):
        text = lambda v: json.dumps(v, sort_keys=True)
        e = {"op": "pair", "of": what, "a": text(p), "b": text(q), "bags": [], "rest": ["", ""]}
        if p["op"] == q["op"] and p["op"] in ("voxel", "ivoxel"):       # no determined order
            keys = [k for k in ("res", "res2") if k in p and k in q]
            e["rest"] = [text({k: v for k, v in x.items() if k not in keys}) for x in (p, q)]
            e["bags"] = [[[text(v) for v in x[k]] for x in (p, q)] for k in keys]
        return e

    def pairs(self, name, runs):
        """Sessions of pairs of events: runs is a list of (what, one recording, the other)."""
        out = os.path.join(self.work, name + ".ndjson")
        with open(out, "w") as f:
            for what, a, b in runs:
                xs = [x for x in open(a).read().split("\n") if x]
                ys = [x for x in open(b).read().split("\n") if x]
                f.write(json.dumps({"ev": [{"op": "lengths", "of": what, "a": len(xs), "b": len(ys)}]}) + "\n")
                for x, y in zip(xs, ys):
                    x, y = json.loads(x)["ev"], json.loads(y)["ev"]
                    n = max(len(x), len(y))
                    none = [{"op": "nothing"}] * n
                    f.write(json.dumps({"ev": [self.pair(what, p, q) for p, q in zip((x + none)[:n], (y + none)[:n])]}) + "\n")
        return out

    def excused(self, session, l, bad):
        return False

    # ------------------------------------------------------------------ results
    def violation(self, what, data):
        d = os.path.join(VERIF, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        data = dict(data)
        data.update({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier})
        json.dump(data, open(p, "w"), indent=1)
        self.violations.append((what, p))
        log("  rejected: %s" % what)

    def finish(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "models": self.models,
            "validation": self.validation,
            "samples": self.samples or ["none recorded"],
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            log("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("%s: %s in %.1f s" % (self.prop, "VIOLATED" if self.violations else "held", time.time() - self.t0))
        return 1 if self.violations else 0


def main(domains):
    if len(sys.argv) < 2 or sys.argv[1] not in domains:
        print("usage: check.py <property>; one of " + " ".join(sorted(domains)))
        return 2
    c = Check(sys.argv[1])
    try:
        domains[c.prop](c)
        c.join()
        return c.finish()
    except ToolError as e:
        # a violation that was already established stands
        if c.violations:
            log(str(e))
            return c.finish()
        log("ERROR: %s" % e)
        return 2
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
