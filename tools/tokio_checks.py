"""Checks of T01 and T02 (Tokio.tla, MCTokio.tla, TokioTrace.tla)."""
import json, os, time
from vlib import SEED, build, parallel

CONST = "Ver Auto MaxAtt Rm KeepAlive NConn NPub NReq NPing NDisc NAuto NSrv NBad NEnd NDown NTick NRef NOpen Cq Rd".split()
INV = "Once Outcomes NoOrphan Tracked Hello OneConn Turned Increasing All Waked Quiet Obeyed Steps".split()
T01 = lambda f, m: f.startswith("done") or f.startswith("log")
T02 = lambda f, m: f in ("sent", "conn", "log.Lost", "log.Attempt", "log.Connected")
# property: (facets, budgets: quick, thorough; {family: scenarios})
P = {
    "T01": (T01, ["5 TRUE 0 2 0  1 2 1 0 0 0 0 0 1 0 1 0 2 2 1", "5 FALSE 0 1 0  2 1 0 1 0 0 1 1 1 0 0 0 2 2 1"],
            ["5 TRUE 0 1 0  2 1 0 1 1 0 0 0 1 0 1 0 3 2 2", "3 TRUE 0 2 0  1 1 1 1 0 0 0 0 1 0 1 0 2 2 2"],
            {"tmix": 200, "tops": 300, "ttime": 200, "tsmall": 200}),
    "T02": (T02, ["5 TRUE 0 2 0  2 0 0 0 1 1 0 0 1 1 3 1 3 2 1", "3 TRUE 2 2 1  1 1 0 0 0 0 0 0 2 1 3 0 3 1 1"],
            ["3 TRUE 2 2 1  1 1 0 0 0 0 1 0 2 1 4 0 3 1 1", "5 TRUE 0 2 0  2 1 0 0 2 1 0 0 1 1 2 1 3 1 1"],
            {"tmix": 200, "tlost": 300, "twill": 300, "tops": 150}),
}


def sample(line):
    d = json.loads(line)
    return {"family": d["fam"], "version": d["cfg"]["ver"], "first_steps": [
        {"now": o["now"], "commands": [c["op"] for c in o["s"]["cmds"]], "reads": [[f["k"] for f in r] for r in o["s"]["rd"]], "eof": o["s"]["eof"],
         "callbacks": [e["k"] for e in o["o"]["log"]], "results": [[x["n"], x["ret"]] for x in o["o"]["done"]], "sent": [x["p"]["k"] for x in o["o"]["sent"]]} for o in d["ops"][:10]]}


def cfg(budget):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % p for p in zip(CONST, budget.split())) + \
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n" + "".join("INVARIANT %s\n" % i for i in INV)


def check(run):
    facets, quick, deep, fams = P[run.prop]
    binary = []

    def mc():
        for i, b in enumerate(quick + (deep if run.thorough else [])):
            run.model("MCTokio", cfg(b), "b%d" % i, workers=8 if run.thorough else 4, timeout=400)

    def gen():
        binary.append(build("tokio"))

    def traces(seed, unit, name):
        files = [run.path("t-%s-%s" % (name, f)) for f in fams]

        def one(f, t):
            return lambda: run.harness(binary[0], "tokgen", t, seed, "%s=%d" % (f, fams[f] * unit), timeout=400)
        parallel(*[one(f, t) for f, t in zip(fams, files)])
        L = []
        for t in files:
            if os.path.exists(t):
                L += [l for l in open(t) if l.endswith("}\n")]
                os.remove(t)
        t = run.path("t-" + name)
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("TokioTrace", t, name, facets)
        os.remove(t)

    if run.thorough:
        gen()
        mc()
        k = 0
        while time.time() - run.t0 < 560 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 2, "b%d" % k)
    else:
        parallel(gen, mc)
        traces(SEED, 1, "a")
    run.assumptions += [
        "the assumptions of the engine's own properties (E01-E13)",
        "the plain TCP transport over the loopback interface; tokio and the kernel's TCP are trusted",
        "the server reads what is written to it; a publish that is refused or evicted while queued reports only through the handler or its time-out",
    ]
