"""Checks of F01 and L01 (Wrap.tla, MCWrap.tla, WrapTrace.tla; QuicWrap.tla, MCQuicWrap.tla, QuicTrace.tla)."""
import json, os, time
from vlib import SEED, build, parallel
from engine_checks import sample

INV = ["Results", "Packets", "State", "Events", "Returned", "Hidden", "Hello", "Received"]
# property: (interfaces explored, {family: scenarios})
P = {
    "F01": ([1, 2, 4, 5], {"ffi": 600, "tlsffi": 200, "hold": 12}),
    "L01": ([3], {"tls3": 250, "tlsbig": 60}),
}
# NPub, NSrv, NTick, NLoss
SMALL = {1: (1, 1, 2, 1), 2: (1, 1, 2, 1), 3: (1, 2, 5, 0), 4: (1, 2, 4, 0), 5: (1, 2, 4, 0)}
BIG = {1: (2, 1, 3, 1), 2: (2, 1, 3, 1), 3: (2, 2, 6, 0), 4: (1, 2, 6, 0), 5: (1, 2, 6, 0)}


def cfg(via, n):
    return "CONSTANTS\n Iface = %d\n NPub = %d\n NSrv = %d\n NTick = %d\n NLoss = %d\nSPECIFICATION Spec\nPROPERTY Extends\nCHECK_DEADLOCK FALSE\n" % (
        (via,) + n) + "".join("INVARIANT %s\n" % i for i in INV)


QINV = ["Results", "State", "Events", "Returned", "Veiled", "Trust", "Once"]
QCONST = "Iface Vfy NPub NSrv NTick NConn NTake MaxOut".split()
# the same over QUIC (MCQuicWrap)
QSMALL = ["6 1 1 1 0 1 1 9", "7 1 1 0 1 1 1 1", "6 5 1 0 1 2 1 9", "7 2 1 0 1 2 1 9"]
QBIG = ["6 1 1 1 1 1 1 9", "7 1 1 1 1 1 1 1", "6 1 2 1 0 1 1 9", "7 1 1 0 1 2 2 9"]


def qcfg(budget):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % p for p in zip(QCONST, budget.split())) + \
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in QINV)


def check(run):
    vias, fams = P[run.prop]
    binary = []

    def mc():
        for v in vias:
            run.model("MCWrap", cfg(v, (BIG if run.thorough else SMALL)[v]), "via%d" % v, workers=8 if run.thorough else 3, timeout=700)
        if run.prop == "F01":
            for i, b in enumerate(QSMALL + (QBIG if run.thorough else [])):
                run.model("MCQuicWrap", qcfg(b), "quic%d" % i, workers=8 if run.thorough else 3, timeout=400)

    def gen():
        binary.append(build("ffi"))

    def traces(seed, unit, name):
        t = run.path("t-" + name)
        run.harness(binary[0], "enggen", t, seed, ",".join("%s=%d" % (f, n * unit) for f, n in fams.items()), timeout=300)
        if not os.path.exists(t):
            open(t, "w").close()
        L = [l for l in open(t) if l.endswith("}\n")]
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("WrapTrace", t, name, lambda f, m: True)
        os.remove(t)
        if run.prop == "F01":
            run.harness(binary[0], "enggen", t, seed, "qffi=%d" % (250 * unit), timeout=400)
            L = [l for l in open(t) if l.endswith("}\n")] if os.path.exists(t) else []
            open(t, "w").writelines(L)
            if L:
                run.validate("QuicTrace", t, name + "-quic", lambda f, m: True)
            os.remove(t)

    if run.thorough:
        gen()
        mc()
        k = 0
        while time.time() - run.t0 < 500 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 2, "b%d" % k)
    else:
        parallel(gen, mc)
        traces(SEED, 1, "a")
    run.assumptions += [
        "the assumptions of the engine's own properties (E01-E13)",
        "one caller at a time; server names and addresses parse",
    ] + (["the TLS peer is rustls, speaking TLS 1.2 or 1.3; its bytes arrive in any pieces but unaltered"] if run.prop == "L01" else
         ["booleans of the C interface are 0 or 1, strings are NUL-terminated and payload pointers are not null"])
