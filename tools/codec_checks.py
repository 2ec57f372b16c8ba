"""Checks of the codec properties C01-C05 (Codec.tla, MCCodec.tla, CodecTrace.tla)."""
import json, os, time
from vlib import SEED, build, parallel

ANY = {"panic", "hang", "crash"}


def fs(*pre):
    return lambda f, m: f in ANY or f.startswith(pre)


INVS = {
    "packets": "Printed RoundTrip Minimal Prefixes Trailing Levels Relayed",
    "bytes": "Changed",
    "parser": "FramesRead NothingLost InTime",
}


def cfg(mode, big, gen=False):
    fair = mode == "parser"
    return "CONSTANTS\n MODE = \"%s\"\n GEN = %s\n NFRAMES = %d\nSPECIFICATION %s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (
        mode, "TRUE" if gen else "FALSE", 3 if big else 2, "FairSpec" if fair else "Spec", INVS[mode], "PROPERTY AllRead\n" if fair else "")


# property: (models, pairs of the universe with all cuts, families, their exhaustive families, facets)
P = {
    "C01": (["packets", "bytes"], 10, {"rt": 700, "rtodd": 500, "walk": 58, "long": 60, "lev": 100, "stream": 150}, {"big": (9, 14)},
            fs("enc.", "dec.rejects", "dec.wrong", "dec.consumed", "next.rejects", "next.wrong")),
    "C02": (["parser", "packets"], 200, {"stream": 1500, "reader": 800, "level": 400, "walk": 29, "mut": 100}, {"big": (9, 9)},
            fs("next.", "dec.early", "dec.consumed", "dec.wrong")),
    "C03": (["bytes", "packets"], 10, {"mut": 1500, "junk": 700, "walk": 116, "vsn": 150, "lev": 200, "rtodd": 150, "stream": 300, "reader": 200, "long": 20}, {"short": (850, 14000), "big": (7, 7)},
            fs("dec.accepts", "dec.early", "dec.consumed", "next.accepts", "next.stalls", "next.early", "vsn", "lev.accepts", "lev.early")),
    "C04": (["parser", "packets"], 150, {"level": 1800, "lev": 1200, "stream": 200}, {},
            fs("lev.", "next.")),
    "G01": (["packets"], 0, {"relay": 900, "nopacket": 2}, {}, fs("relay.")),
    "C05": (["packets", "bytes"], 5, {"topic": 700, "mut": 200}, {"filters": (660, 660)},
            fs("dec.accepts", "dec.rejects", "dec.wrong", "dec.consumed")),
}


def brief(v, n=40):
    return v if len(v) <= n else v[:n] + ["... %d" % len(v)]


def sample(line):
    d = json.loads(line)
    return {"family": d["fam"], "version": d["cfg"]["ver"], "first_calls": [
        {"call": o["o"], "bytes": brief(o.get("b", [])), "result": o.get("r", ""), "packet_kind": o.get("x", {}).get("k", 0)} for o in d["ops"][:8]]}


def check(run):
    mods, pairs, fams, exh, facets = P[run.prop]

    def mc():
        for m in mods:
            run.model("MCCodec", cfg(m, run.thorough), m, workers=4 if not run.thorough else 8, timeout=840)

    def validate(t, name):
        if not os.path.exists(t):
            return
        L = [l for l in open(t) if l.endswith("}\n")]
        open(t, "w").writelines(L)
        if len(run.samples) < 5 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("CodecTrace", t, name, facets)
        os.remove(t)

    def gen():
        binary.append(build("grpc" if run.prop == "G01" else ""))
        # the packets of the specification's universe, through the code
        g, d, out = run.tlc("MCCodec", cfg("packets", False, True), "universe", workers=1)
        run.harness(binary[0], "codecuni", out, run.path("u"), SEED, pairs * (6 if run.thorough else 1), timeout=200)
        os.remove(out)

    def traces(seed, scale, name, exhaustive):
        t = run.path("t-" + name)
        spec = ["%s=%d" % (f, max(1, round(n * scale))) for f, n in fams.items()]
        if exhaustive:
            spec += ["%s=%d" % (f, n[1] if run.thorough else n[0]) for f, n in exh.items()]
        run.harness(binary[0], "codecgen", t, seed, ",".join(spec), timeout=400, mem=20)
        validate(t, name)

    binary = []
    if run.thorough:
        gen()
        mc()
        validate(run.path("u"), "u")
        traces(SEED, 2, "a", True)
        k = 0
        while time.time() - run.t0 < 480 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, 4, "b%d" % k, False)
    else:
        parallel(gen, mc)
        validate(run.path("u"), "u")
        traces(SEED, 1, "a", True)
    run.assumptions += [
        "duplicated properties, properties in the wrong packet and undefined reason codes are left to the receiver, as is an empty filter in UNSUBSCRIBE",
        "model checking covers the universe of MCCodec.tla; the implementation is compared with Codec.tla on the recorded calls",
    ]
