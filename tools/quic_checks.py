"""Checks of X01-X04 (Quic.tla, MCQuic.tla, QuicTrace.tla)."""
import os, time
from vlib import SEED, build, parallel
from engine_checks import sample

CONST = "Zero NPub NReq NOpen NSrv NEnd NSEnd NConn NTick NRej NStall NClose Win MaxOut".split()
INV = "Own Answers Control Hello Framed Complete Last ClosedOnce ClosedLast Isolated Told3 EarlyOnly Ends Steps".split()
# property: (budgets explored by TLC: quick, thorough; {family: scenarios})
P = {
    "X01": (["0 2 1 0 0 0 0 1 1 0 0 0 0 9", "0 1 0 1 1 1 0 1 0 0 0 0 0 9", "0 2 0 1 0 1 0 1 0 0 0 0 0 9"],
            ["0 1 1 1 0 1 0 1 1 0 0 0 0 9", "0 2 1 1 1 0 0 1 0 0 0 0 0 9", "0 2 1 0 1 0 0 2 1 0 0 0 0 9", "0 2 0 0 1 0 0 1 1 0 0 0 0 1"],
            {"qmix": 300, "qfull": 200, "qloss": 150, "qlimit": 150}),
    "X02": (["0 1 0 0 2 0 1 1 0 0 0 0 0 9", "0 0 0 1 2 0 2 1 0 0 0 0 0 9", "0 1 0 0 1 1 0 1 1 0 0 0 0 1"],
            ["0 1 1 0 2 1 2 1 0 0 0 0 0 9", "0 1 0 1 3 0 2 1 0 0 0 0 0 9", "0 1 0 0 2 1 1 2 0 0 0 0 0 9"],
            {"qmix": 150, "qev": 300, "qclose": 200, "qloss": 150}),
    "X03": (["1 1 1 0 0 0 0 2 0 1 0 0 0 9", "2 1 1 0 0 0 0 2 0 1 0 0 0 9", "2 2 0 1 0 0 0 2 0 1 0 0 0 9"],
            ["2 1 0 1 1 1 0 2 1 1 0 0 0 9", "1 2 1 1 0 0 0 2 0 1 0 1 0 9", "2 2 1 0 1 0 0 3 0 2 0 0 0 9"],
            {"qzero": 700}),
    "X04": (["0 1 1 0 0 0 0 2 0 0 0 1 0 9", "0 2 0 0 0 0 0 2 0 0 1 1 1 9", "2 1 0 1 0 0 0 2 0 1 0 1 0 9"],
            ["0 2 0 1 0 1 0 1 0 0 0 1 0 9", "2 1 0 1 0 1 0 2 0 1 0 1 0 9", "0 2 1 0 1 0 0 2 0 0 1 1 1 9"],
            {"qclose": 300, "qstall": 200, "qlarge": 100, "qzero": 200}),
}


def cfg(budget):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % p for p in zip(CONST, budget.split())) + \
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in INV)


def check(run):
    quick, deep, fams = P[run.prop]
    binary = []

    def mc():
        for i, b in enumerate(quick + (deep if run.thorough else [])):
            run.model("MCQuic", cfg(b), "b%d" % i, workers=8 if run.thorough else 4, timeout=400)

    def gen():
        binary.append(build("ffi"))

    def traces(seed, unit, name):
        files = [run.path("t-%s-%s" % (name, f)) for f in fams]

        def one(f, t):
            return lambda: run.harness(binary[0], "enggen", t, seed, "%s=%d" % (f, fams[f] * unit), timeout=400)
        parallel(*[one(f, t) for f, t in zip(fams, files)])
        L = []
        for t in files:
            if os.path.exists(t):
                L += [l for l in open(t) if l.endswith("}\n")]
                os.remove(t)
        t = run.path("t-" + name)
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("QuicTrace", t, name, lambda f, m: True)
        os.remove(t)

    if run.thorough:
        gen()
        mc()
        k = 0
        while time.time() - run.t0 < 560 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 2, "b%d" % k)
    else:
        parallel(gen, mc)
        traces(SEED, 1, "a")
    run.assumptions += [
        "the assumptions of the engine's own properties (E01-E13)",
        "the peer is a quinn server over a simulated network that delays, reorders, duplicates or loses datagrams; quinn's own congestion control and TLS are trusted",
        "a disconnect_and_close delivers what flow and congestion control let out; what they still hold back is not awaited",
    ]
