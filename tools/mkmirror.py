#!/usr/bin/env python3
"""Mirror of /repo's workspace whose manifests cargo can resolve offline.

/repo's manifests name optional git dependencies (quinn-openssl, ...) that cannot be
fetched here; cargo resolves even the unused ones.  Every file and directory of /repo is
a symlink in the mirror, so the code compiled is /repo's present working tree; only the
Cargo.toml files are rewritten: optional git dependencies, the features that need them and
the optional dependencies only those features asked for are left out, as are dev-dependencies,
examples, tests and benches (the harness never builds those).
usage: mkmirror.py DEST [REPO]
"""
import datetime, os, shutil, sys, tomllib

DEST = sys.argv[1]
REPO = sys.argv[2] if len(sys.argv) > 2 else "/repo"
SKIP = {".git", "target", "Cargo.lock", ".cargo"}

def load(p):
    with open(os.path.join(REPO, p), "rb") as f:
        return tomllib.load(f)

def tables(m):
    for t in [m, *m.get("target", {}).values()]:
        for n in ("dependencies", "dev-dependencies", "build-dependencies"):
            if n in t:
                yield t[n]

def strip(ms):
    gone_d = {p: {k for t in tables(m) for k, v in t.items() if isinstance(v, dict) and "git" in v} for p, m in ms.items()}
    gone_f = {p: set() for p in ms}
    def bad(p, i):
        if i.startswith("dep:"):
            return i[4:] in gone_d[p]
        if "/" in i:
            d, f = i.split("/", 1)
            d = d.rstrip("?")
            return d in gone_d[p] or f in gone_f.get(d, ())
        return i in gone_f[p] or i in gone_d[p]
    ch = True
    while ch:
        ch = False
        for p, m in ms.items():
            for f, items in m.get("features", {}).items():
                if f not in gone_f[p] and any(bad(p, i) for i in items):
                    gone_f[p].add(f); ch = True
    for p, m in ms.items():
        feats = m.get("features", {})
        explicit = {i for f in gone_f[p] for i in feats[f] if i.startswith("dep:")}
        for f in gone_f[p]:
            del feats[f]
        kept = {i for items in feats.values() for i in items}
        gone = gone_d[p] | ({i[4:] for i in explicit if i not in kept})
        for t in tables(m):
            for k in list(t):
                if k in gone:
                    if not t[k].get("optional"):
                        sys.exit(f"mkmirror: {k} is a git dependency and not optional")
                    del t[k]
        for k in ("dev-dependencies", "example", "test", "bench"):
            m.pop(k, None)
        m.setdefault("package", {}).update({"autoexamples": False, "autotests": False, "autobenches": False})

def val(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float, datetime.date, datetime.time)): return str(v)
    if isinstance(v, str):
        return '"' + "".join("\\" + c if c in '"\\' else c if ord(c) >= 32 and ord(c) != 127 else f"\\u{ord(c):04x}" for c in v) + '"'
    if isinstance(v, list): return "[" + ", ".join(map(val, v)) + "]"
    return "{ " + ", ".join(f"{val(k)} = {val(x)}" for k, x in v.items()) + " }"

def emit(m):
    out = []
    tabs = {k: v for k, v in m.items() if isinstance(v, dict)}
    lists = {k: v for k, v in m.items() if isinstance(v, list) and v and all(isinstance(x, dict) for x in v)}
    for k, v in m.items():
        if k not in tabs and k not in lists: out.append(f"{val(k)} = {val(v)}")
    for k, v in tabs.items():
        out.append(f"\n[{val(k)}]")
        out += [f"{val(a)} = {val(b)}" for a, b in v.items()]
    for k, v in lists.items():
        for x in v:
            out.append(f"\n[[{val(k)}]]")
            out += [f"{val(a)} = {val(b)}" for a, b in x.items()]
    return "\n".join(out) + "\n"

def mirror(rel, ms):
    src, dst = os.path.join(REPO, rel), os.path.join(DEST, rel)
    os.makedirs(dst, exist_ok=True)
    entries = {e for e in os.listdir(src) if e not in SKIP}
    for e in os.listdir(dst):
        d = os.path.join(dst, e)
        if e not in entries and (os.path.islink(d) or os.path.isfile(d)) and e != "Cargo.lock":
            os.remove(d)
    for e in sorted(entries):
        r = os.path.join(rel, e) if rel else e
        s, d = os.path.join(src, e), os.path.join(dst, e)
        if r in ms:
            text = emit(ms[r])
            if not os.path.isfile(d) or open(d, encoding="utf-8").read() != text:
                with open(d, "w", encoding="utf-8") as f: f.write(text)
        elif any(x.startswith(r + "/") for x in ms):
            mirror(r, ms)
        elif not (os.path.islink(d) and os.readlink(d) == s):
            if os.path.islink(d) or os.path.isfile(d): os.remove(d)
            os.symlink(s, d)

def main():
    root = load("Cargo.toml")
    ms = {"Cargo.toml": root}
    for mem in root["workspace"]["members"]:
        if mem != ".":
            p = os.path.join(os.path.normpath(mem), "Cargo.toml")
            ms[p] = load(p)
    strip({m["package"]["name"]: m for m in ms.values()})
    mirror("", ms)

main()
