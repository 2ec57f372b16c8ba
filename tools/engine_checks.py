"""Checks of the engine properties E01-E13 (Engine.tla, MCEngine.tla, EngineTrace.tla)."""
import json, os
import models
from vlib import SEED, build, parallel

ANY = {"panic", "hang", "crash"}


def fs(*names):
    """Which disagreements concern the property: exact names, or prefixes ending in '*'."""
    ex = ANY | {n for n in names if not n.endswith("*")}
    pre = tuple(n[:-1] for n in names if n.endswith("*"))
    return lambda f, m: f in ex or (pre and f.startswith(pre))


OUTPUB = ("out.PUBLISH", "out.PUBREL", "out.order", "ret.pub", "ret.pubenc")
# property: (models, paths, {family: weight}, facets)
P = {
    "E01": (["handshake"], ["handshake", "window"], {"ids": 6, "subs": 3, "out": 2, "resume": 2, "window": 1},
            fs("id", "ret.pub*", "ret.sub*", "ret.unsub*", "out.PUBLISH", "out.SUBSCRIBE", "out.UNSUBSCRIBE", "out.PUBREL", "ev.Published", "ev.Subscribed", "ev.Unsubscribed")),
    "E02": (["handshake", "live"], ["handshake", "resume"], {"out": 8, "window": 2, "resume": 2, "rexmit": 2, "life": 1},
            fs(*OUTPUB, "str", "ev.Published", "ev.order")),
    "E03": (["inbound", "lossy_in"], ["inbound"], {"in": 10, "limits": 2, "life": 3},
            fs("ev.MessageReceived", "ev.PublishReceived", "ev.PubRelReceived", "ev.order", "out.PUBACK", "out.PUBREC", "out.PUBCOMP", "out.order")),
    "E04": (["window"], ["window", "handshake"], {"window": 10, "queue": 2, "resume": 2},
            fs(*OUTPUB)),
    "E05": (["queue"], ["queue"], {"queue": 10, "evict": 0.4, "window": 2, "life": 1},
            fs("out.PUBLISH", "out.order", "ret.pub", "ev.Error")),
    "E06": (["resume"], ["resume"], {"resume": 12, "subs": 2, "life": 2},
            fs("out.*", "str", "ev.Published", "ev.Subscribed", "ev.Unsubscribed")),
    "E07": (["rexmit"], ["rexmit"], {"rexmit": 12, "timer": 2},
            fs("out.PUBLISH", "out.PUBREL", "out.SUBSCRIBE", "out.UNSUBSCRIBE", "out.order", "str", "nt", "spin")),
    "E08": (["backoff"], ["backoff"], {"backoff": 14, "life": 2},
            fs("ev.ReconnectNeeded", "ev.ReconnectScheduled", "ev.order", "nt", "spin")),
    "E09": (["alive"], ["alive"], {"alive": 14, "timer": 2},
            fs("out.PINGREQ", "out.order", "ev.ReconnectNeeded", "ev.ReconnectScheduled", "ev.PingResponse", "ev.order", "conn", "ret.ping", "ret.tryping")),
    "E10": (["alive", "backoff"], ["alive", "rexmit", "backoff"], {"timer": 8, "rexmit": 3, "alive": 3, "backoff": 3},
            fs("nt", "spin", "ev.ReconnectNeeded", "out.PINGREQ", "str")),
    "E11": (["small", "lossy_in"], ["small"], {"limits": 14, "evict": 0.1},
            fs("ret.*", "ev.*", "out.*", "str", "conn")),
    "E12": (["resume"], ["resume", "backoff"], {"life": 12, "resume": 3, "backoff": 2, "in": 1},
            fs("conn", "out.CONNECT", "out.DISCONNECT", "out.AUTH", "out.order", "out.PUBLISH", "ev.Connected", "ev.Disconnected", "ev.Error", "ev.order", "ret.disc", "ret.trydisc", "ret.connect", "str")),
    "E13": (["resume"], ["resume", "small"], {"subs": 12, "resume": 2, "window": 2},
            fs("out.SUBSCRIBE", "out.UNSUBSCRIBE", "out.order", "ev.Subscribed", "ev.Unsubscribed", "ev.order", "ret.sub*", "ret.unsub*", "str")),
}
UNIT = 16  # scenarios per weight


def sample(line):
    d = json.loads(line)
    return {"family": d["fam"], "version": d["cfg"]["ver"], "first_calls": [
        {"op": o["op"], "now": o["now"], "packets_in": [f["k"] for f in o["a"]["fs"]], "result": o["o"]["ret"],
         "events": [e["k"] for e in o["o"]["evs"]], "packets_out": [p["k"] for p in o["o"]["out"]]} for o in d["ops"][:14]]}


def check(run):
    mods, paths, fams, facets = P[run.prop]
    binary = []

    def mc():
        for n in mods:
            c, big = models.MODELS[n]
            c = dict(c)
            if run.thorough:
                c.update(big)
            run.model("MCEngine", models.cfg(c, models.SAFE, n == "live"), n, workers=4 if not run.thorough else 8, timeout=840)

    def gen():
        binary.append(build())
        for n in paths:
            c = dict(models.PATHS[n])
            c.update(GEN="TRUE", MaxLen=40)
            g, d, out = run.tlc("MCEngine", models.cfg(c, []), "path-" + n, workers=1)
            run.harness(binary[0], "engpaths", out, run.path("p-" + n), 20000 if run.thorough else 1500, SEED)
            os.remove(out)

    def traces(seed, unit, name, with_paths):
        t = run.path("t-" + name)
        spec = ",".join("%s=%d" % (f, max(1, round(w * unit))) for f, w in fams.items())
        run.harness(binary[0], "enggen", t, seed, spec, timeout=200)
        if not os.path.exists(t):
            open(t, "w").close()
        if with_paths:
            with open(t, "a") as o:
                for n in paths:
                    if os.path.exists(run.path("p-" + n)):
                        o.write(open(run.path("p-" + n)).read())
        L = [l for l in open(t) if l.endswith("}\n")]
        open(t, "w").writelines(L)
        if len(run.samples) < 4 and L:
            run.samples += [sample(L[i]) for i in range(0, len(L), max(1, len(L) // 3))][:3]
        if L:
            run.validate("EngineTrace", t, name, facets)
        os.remove(t)

    if run.thorough:
        gen()
        mc()
        traces(SEED, UNIT * 4, "a", True)
        k = 0
        import time
        while time.time() - run.t0 < 500 and not run.violations:
            k += 1
            traces(SEED * 1000 + k, UNIT * 6, "b%d" % k, False)
    else:
        parallel(gen, mc)
        traces(SEED, UNIT, "a", True)
    run.assumptions += [
        "the broker never acknowledges an exchange with a packet of another kind, and a packet identifier is not reused while a duplicate acknowledgement of its earlier use is on the way",
        "the application does not choose packet identifiers itself",
        "model checking within the bounds of tools/models.py; the implementation is compared with the model on the recorded executions",
    ]
