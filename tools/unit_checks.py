"""Checks of S01, S02 and Q01 (Units.tla, MCUnits.tla, UnitTrace.tla)."""
import json, os, time
from vlib import SEED, build, parallel

P = {"S01": "cs", "S02": "ss", "Q01": "pq"}
# explorations: (LEN, IDS, CAP) quick, thorough; and of the paths to replay
MODELS = {
    "cs": ([(9, "{1, 2}", 1), (7, "{1, 2, 3}", 1)], [(12, "{1, 2, 3}", 1)]),
    "ss": ([(8, "{}", 1), (8, "{}", 2)], [(10, "{}", 1), (10, "{}", 2), (9, "{}", 3)]),
    "pq": ([(7, "{}", c) for c in (0, 1, 3)], [(10, "{}", c) for c in (0, 1, 2, 4)]),
}
PATHS = {
    "cs": [(7, "{1, 2, 3}", 1)],
    "ss": [(7, "{}", 1), (7, "{}", 2)],
    "pq": [(8, "{}", c) for c in (0, 1, 2, 3)],
}


def cfg(kind, gen, p):
    return "CONSTANTS\n MODE = \"%s\"\n GEN = %s\n LEN = %d\n IDS = %s\n CAP = %d\nSPECIFICATION Spec\nVIEW View\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\n" % (
        kind, "TRUE" if gen else "FALSE", p[0], p[1], p[2])


def sample(line):
    d = json.loads(line)
    return {"kind": d["kind"], "capacity_or_window": d["cap"], "first_calls": [
        {"call": o["op"], "packet": o["f"]["k"], "id": o["f"]["id"], "element": o["x"], "result": o["o"]["ret"], "out": o["o"]["out"][:4]} for o in d["ops"][:12]]}


def check(run):
    kind = P[run.prop]
    binary = []

    def mc():
        for i, p in enumerate(MODELS[kind][run.thorough]):
            run.model("MCUnits", cfg(kind, False, p), "%s-%d-%d" % (kind, p[0], p[2]), workers=8 if run.thorough else 4, timeout=600)

    def gen():
        binary.append(build())
        for i, p in enumerate(PATHS[kind]):
            g, d, out = run.tlc("MCUnits", cfg(kind, True, p), "path-%d" % i, workers=1)
            run.harness(binary[0], "unitpaths", out, run.path("p-%d" % i), SEED, kind, p[2], 30000 if run.thorough else 4000)
            os.remove(out)

    def traces(seed, n, name, paths):
        t = run.path("t-" + name)
        run.harness(binary[0], "unitgen", t, seed, "%s=%d" % (kind, n), timeout=200)
        if not os.path.exists(t):
            open(t, "w").close()
        if paths:
            with open(t, "a") as o:
                for i in range(len(PATHS[kind])):
                    if os.path.exists(run.path("p-%d" % i)):
                        o.write(open(run.path("p-%d" % i)).read())
        L = [l for l in open(t) if l.endswith("}\n")]
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("UnitTrace", t, name, lambda f, m: True)
        os.remove(t)

    if run.thorough:
        gen()
        mc()
        traces(SEED, 2000, "a", True)
        k = 0
        while time.time() - run.t0 < 400 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 3000, "b%d" % k, False)
    else:
        parallel(gen, mc)
        traces(SEED, 600, "a", True)
    run.assumptions += {
        "cs": ["a publish handed to the session uses an identifier with no release of its own outstanding, and a second publish with an identifier still open is a repeat of the first",
               "the order in which packets are resent is not fixed"],
        "ss": ["acknowledgements refer to handed-out, unfinished messages, in the order of the QoS 2 handshake"],
        "pq": ["the elements serialise and deserialise to themselves"],
    }[kind]
