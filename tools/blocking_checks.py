"""Check of B01 (Blocking.tla, MCBlocking.tla, BlockingTrace.tla)."""
import json, os, time
from vlib import SEED, build, parallel

INV = "Kept Verdict Written Anew Listed Ordered Looking Refused NoSession"
ALL = '{"connect","connsend","sub","unsub","pub","ping","recv","popun","clearun","disc","subsend","pubsend","unsubsend","pingsend","done","end","clearpend"}'
FEW = '{"connect","sub","pub","pubsend","recv","done"}'
# version, session-less, calls, packets per call, calls explored
QUICK = [(5, 0, 2, 2, ALL), (3, 0, 3, 1, ALL), (5, 1, 3, 1, ALL), (5, 0, 3, 1, ALL)]
DEEP = [(5, 0, 2, 3, ALL), (3, 0, 2, 3, ALL), (5, 0, 4, 1, FEW), (5, 0, 3, 2, FEW)]
FAMS = {"bmix": 150, "bend": 150, "bsend": 150, "bbusy": 150, "bid": 5}
FACETS = lambda f, m: True


def sample(line):
    d = json.loads(line)
    return {"family": d["fam"], "version": d["cfg"]["ver"], "first_calls": [
        {"call": o["op"], "server_wrote": [[f["k"], f["id"]] for f in o["a"]["fs"]], "identifier": o["o"]["sid"], "returned": o["o"]["ret"], "code": o["o"]["rc"]} for o in d["ops"][:10]]}


def cfg(m):
    return "CONSTANTS Ver = %d Lone = %d NCall = %d NArr = %d Ids = {1, 2} Calls = %s\n" % m + \
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % INV


def check(run):
    binary = []

    def mc():
        for i, m in enumerate(QUICK + (DEEP if run.thorough else [])):
            run.model("MCBlocking", cfg(m), "m%d" % i, workers=8 if run.thorough else 4, timeout=300)

    def gen():
        binary.append(build())

    def traces(seed, unit, name):
        files = [run.path("t-%s-%s" % (name, f)) for f in FAMS]

        def one(f, t):
            return lambda: run.harness(binary[0], "blkgen", t, seed, "%s=%d" % (f, FAMS[f] * unit), timeout=400)
        parallel(*[one(f, t) for f, t in zip(FAMS, files)])
        L = []
        for t in files:
            if os.path.exists(t):
                L += [l for l in open(t) if l.endswith("}\n")]
                os.remove(t)
        t = run.path("t-" + name)
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("BlockingTrace", t, name, FACETS)
        os.remove(t)

    if run.thorough:
        gen()
        mc()
        k = 0
        while time.time() - run.t0 < 640 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 4, "b%d" % k)
    else:
        parallel(gen, mc)
        traces(SEED, 1, "a")
    run.assumptions += [
        "plain TCP over the loopback interface; the kernel's TCP is trusted",
        "the server reads what is written to it; connections are ended in an orderly way",
    ]
