"""Building, running TLC, and reporting: what every check needs."""
import fcntl, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, check=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build(features=""):
    """Builds the harness against /repo's working tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(V, "tools/mkmirror.py"), os.path.join(BUILD, "repo")], check=True)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", features], cwd=os.path.join(V, "harness"),
                           env=sh_env(), capture_output=True, text=True)
        if r.returncode:
            raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
        src = os.path.join(BUILD, "target/debug/vharness")
        dst = os.path.join(BUILD, "vharness-" + (features.replace(",", "-") or "base"))
        subprocess.run(["cp", "-f", src, dst + ".tmp"], check=True)
        os.rename(dst + ".tmp", dst)
        return dst


class Run:
    """One run of one check."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.dir = os.path.join(BUILD, "run", "%s-%s" % (prop, tier))
        subprocess.run(["rm", "-rf", self.dir], check=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.lines = 0
        self.models, self.samples, self.violations, self.other = {}, [], [], []
        self.facets, self.assumptions = {}, []
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def harness(self, binary, *args, timeout=300, mem=16):
        """Runs the harness.  A crash or a hang of the code under test is a violation."""
        cmd = "ulimit -v %d; exec \"$@\"" % (mem << 20)
        env = dict(os.environ, TMPDIR=self.dir, HOME="/root")
        try:
            r = subprocess.run(["bash", "-c", cmd, "h", binary, *map(str, args)], capture_output=True, text=True,
                               timeout=timeout, cwd=self.dir, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            self.violation("hang", {"cmd": [binary, *map(str, args)], "why": "no answer in %d s" % timeout})
            return None
        if r.returncode == 3:
            self.violation("hang", {"cmd": [binary, *map(str, args)], "why": r.stdout[-2000:] + r.stderr[-2000:]})
            return None
        if r.returncode < 0 or r.returncode in (134, 139):
            self.violation("crash", {"cmd": [binary, *map(str, args)], "status": r.returncode, "why": r.stderr[-2000:]})
            return None
        if r.returncode:
            raise ToolError("harness %s: %d\n%s" % (args, r.returncode, r.stderr[-3000:]))
        return r.stdout

    def tlc(self, module, cfg, name, env=None, workers=None, timeout=800, xss="64m", heap="6g"):
        """Runs TLC; returns (generated, distinct, text)."""
        cf = self.path(name + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xss" + xss, "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "-Djava.io.tmpdir=" + self.dir, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", self.path("md-" + name), "-noGenerateSpecTE", "-config", cf, module + ".tla"]
        out = self.path(name + ".out")
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC: %s took over %d s" % (name, timeout))
        subprocess.run(["rm", "-rf", self.path("md-" + name)])
        with open(out, errors="replace") as f:
            f.seek(max(0, os.path.getsize(out) - 20000))
            tail = f.read()
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
        if r.returncode not in (0,) or not m:
            raise ToolError("TLC on %s ended with %d:\n%s" % (name, r.returncode, tail[-3000:]))
        g, d = (int(x.replace(",", "")) for x in m[-1])
        return g, d, out

    def model(self, module, cfg, name, **kw):
        """Model-checks a specification; it must satisfy its properties (they do not depend on /repo)."""
        g, d, out = self.tlc(module, cfg, "mc-" + name, **kw)
        with self.lock:
            self.states += d
            self.transitions += g
            self.models[name] = {"distinct": d, "generated": g}

    def violation(self, facet, detail):
        with self.lock:
            self.violations.append((facet, detail))

    def validate(self, module, trace, name, facets, timeout=800, xss="512m", extra_env=None):
        """Checks recorded executions against a trace specification.  `facets(f, m)` says whether a
        disagreement of that kind concerns this property."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError("no traces: " + name)
        cfg = open(os.path.join(SPEC, module + ".cfg")).read()
        env = {"TRACE": trace}
        env.update(extra_env or {})
        g, d, out = self.tlc(module, cfg, "tr-" + name, env=env, xss=xss, timeout=timeout)
        bad = []
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"MISMATCH '):
                    bad.append(json.loads(json.loads(l)[9:]))
        with self.lock:
            self.traces += n
            self.lines += d - n
        if bad:
            scen = open(trace).readlines()
            for m in sorted(bad, key=lambda m: (m["s"], m["l"])):
                for f in m["facets"]:
                    if facets(f, m):
                        m["scenario"] = json.loads(scen[m["s"] - 1])
                        self.violation(f, m)
                        break
                else:
                    self.other.append(m["facets"])
        return n

    def finish(self):
        viol = len(self.violations)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "recorded_steps_checked": self.lines, "models": self.models, "samples": self.samples[:6],
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": viol,
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not viol:
            print("OK property=%s states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.lines, time.time() - self.t0))
            return 0
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for f, d in self.violations:
            if f in seen or len(seen) >= 5:
                continue
            seen.add(f)
            p = os.path.join(rd, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9]+", "_", f)))
            d = dict(d)
            sc = d.get("scenario")
            if isinstance(sc, dict) and isinstance(sc.get("ops"), list) and "l" in d:
                sc["ops"] = sc["ops"][:d["l"]]
            with open(p, "w") as o:
                json.dump({"property": self.prop, "facet": f, "detail": d}, o, indent=1)
            print("disagreement (%s): %s" % (f, json.dumps({k: d[k] for k in d if k != "scenario"})[:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1


def parallel(*fs):
    """Runs the functions at the same time; raises the first error."""
    errs = []

    def wrap(f):
        try:
            f()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=wrap, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
