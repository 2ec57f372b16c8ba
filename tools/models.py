"""TLC configurations of MCEngine.tla: which behaviours are explored, and which properties are checked on them."""
BASE = dict(Cfg="C0", Menu='{"pub"}', NMsg=2, Prios="{0}", Qoss="{1, 2}", Ids="{1, 2, 3}", NSrv=0, SrvIds="{1}",
            NLoss=0, RMs="{0}", Steps="{500}", TMax=0, GEN="FALSE", MaxLen=0)
SAFE = ["NoBad", "IdsDistinct", "IdsOk", "NothingForgotten", "Window", "NoNeedlessWait", "InOrder", "AllIn", "BackoffOk", "OutBound"]


def m(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


# name: (constants, for the quick check; overrides for the thorough check)
MODELS = {
    "handshake": (m(Cfg="CfgWindow2", Menu='{"pub", "stray", "err"}', NMsg=3), dict(NMsg=4, Ids="{1, 2, 3, 4}")),
    "window": (m(Cfg="CfgWindow", Menu='{"pub", "err"}', NMsg=3, RMs="{1}"), dict(NMsg=4, Ids="{1, 2, 3, 4}", Cfg="CfgWindow2", RMs="{2}")),
    "queue": (m(Cfg="CfgQueueRm", Menu='{"pub"}', NMsg=4, Prios="{0, 1}", Qoss="{1}", Ids="{1, 2, 3, 4}"), dict(Qoss="{0, 1}", NMsg=5, Ids="{1, 2, 3, 4, 5}")),
    "resume": (m(Cfg="CfgWindow2", Menu='{"pub", "sub", "lost", "reset"}', NMsg=2, NLoss=1), dict(NMsg=3, NLoss=2, Ids="{1, 2, 3, 4}")),
    "small": (m(Cfg="CfgSmall", Menu='{"pub", "sub"}', NMsg=2), dict(NMsg=3, Ids="{1, 2, 3, 4}")),
    "inbound": (m(Cfg="CfgIn", Menu='{"srv", "lost"}', NMsg=0, NSrv=3, SrvIds="{1, 2}", Qoss="{0, 1, 2}", NLoss=1), dict(NSrv=4, NLoss=2)),
    "lossy_in": (m(Cfg="CfgSmall", Menu='{"srv"}', NMsg=0, NSrv=3, SrvIds="{1, 2}", Qoss="{1, 2}"), dict(NSrv=5)),
    "rexmit": (m(Cfg="CfgV3", Menu='{"pub", "tick"}', NMsg=2, Steps="{500, 1000}", TMax=2500), dict(NMsg=2, TMax=4000, Qoss="{1, 2}", Menu='{"pub", "sub", "tick", "lost"}', NLoss=1)),
    "alive": (m(Cfg="CfgTime", Menu='{"pub", "tick", "lost"}', NMsg=1, Steps="{500, 1000}", TMax=5000, NLoss=1), dict(TMax=8000, Steps="{250, 500, 1000}", NLoss=2)),
    "backoff": (m(Cfg="CfgTime", Menu='{"tick", "sched", "lost", "refuse"}', NMsg=0, Steps="{500}", TMax=4000, NLoss=2), dict(TMax=8000, NLoss=3)),
    "live": (m(Cfg="CfgSmall", Menu='{"pub"}', NMsg=2, Qoss="{1, 2}"), dict(NMsg=3)),
}
# behaviours generated from the specification for replay on the engine: the path of every transition
PATHS = {
    "handshake": m(Cfg="CfgWindow", Menu='{"pub", "stray", "err"}', NMsg=2),
    "window": m(Cfg="CfgWindow", Menu='{"pub", "err"}', NMsg=3, RMs="{1}", Qoss="{1}"),
    "queue": m(Cfg="CfgRm1", Menu='{"pub"}', NMsg=4, Prios="{0, 1}", Qoss="{1}", Ids="{1, 2, 3, 4}"),
    "resume": m(Cfg="CfgWindow2", Menu='{"pub", "sub", "lost", "reset"}', NMsg=1, NLoss=1),
    "small": m(Cfg="CfgSmall", Menu='{"pub", "sub"}', NMsg=2),
    "inbound": m(Cfg="CfgIn", Menu='{"srv", "lost"}', NMsg=0, NSrv=2, SrvIds="{1}", Qoss="{0, 2}", NLoss=1),
    "rexmit": m(Cfg="CfgV3", Menu='{"pub", "tick"}', NMsg=1, Steps="{500, 1000}", TMax=2500),
    "alive": m(Cfg="CfgTime", Menu='{"pub", "tick"}', NMsg=1, Steps="{500, 1000}", TMax=4000),
    "backoff": m(Cfg="CfgTime", Menu='{"tick", "sched", "lost", "refuse"}', NMsg=0, Steps="{500}", TMax=2500, NLoss=1),
}


def cfg(consts, invs, live=False):
    s = "SPECIFICATION %s\nVIEW View\nCHECK_DEADLOCK FALSE\n" % ("FairSpec" if live else "Spec")
    s += "CONSTANTS\n" + "".join("  %s %s %s\n" % (k, "<-" if k == "Cfg" else "=", v) for k, v in consts.items())
    if live:
        s = s.replace("VIEW View\n", "")
        s += "PROPERTY AllDone\n"
    s += "".join("INVARIANT %s\n" % i for i in invs)
    return s
