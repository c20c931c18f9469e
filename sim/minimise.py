"""
Minimisation of a violation: simpler histories, inputs, schedules and faults are tried for as
long as the violation is of the same kind.
"""

import copy
import json

from . import seams

real_time = seams._real_time


def size(spec):
    """smaller is better"""
    s = 0
    for fs in spec["files"].values():
        g, t = fs["grid"], fs["time"]
        s += 50 + 5 * g.get("nlat", g.get("ndiv", 1)) * g.get("nlon", 1) + 3 * t["years"] + t.get("drop", 0)
        s += 10 * len(fs["vars"]) + 2 * len([k for k in fs if k in ("dims", "dtype", "coord", "h5chunks")])
        s += sum(2 for v in fs["vars"] for k in v if k not in ("var", "kind", "seed", "units"))
        s += 1 if fs.get("fmt") == "h5" else 0
    s += 20 * len(spec.get("other", ()))
    for st in spec["steps"]:
        s += 300 + sum(1 for d in st.get("decisions") or () if d) + 20 * bool(st.get("observe"))
        s += 0 if "decisions" in st else 1000
        for n in st["nodes"]:
            s += 300 + n.get("cpus", 4) + 20 * len(n.get("jumps", ())) + len(n.get("qweights", ()))
            d = n.get("decisions")
            s += 1000 if d is None else sum(1 for x in d if x) + len(d) // 10
            s += 60 * len(n.get("faults", ()))
            for c in n["commands"]:
                s += 200 + 40 * len(c.get("scales") or ()) + 2 * len(c)
    return s


def candidates(spec):
    """simpler cases, the boldest first"""
    out = []

    def new():
        c = copy.deepcopy(spec)
        out.append(c)
        return c

    steps = spec["steps"]
    for i in reversed(range(len(steps))):
        if len(steps) > 1:
            del new()["steps"][i]
    for i, s in enumerate(steps):
        for j in range(len(s["nodes"])):
            if len(s["nodes"]) > 1:
                c = new()
                del c["steps"][i]["nodes"][j]
                c["steps"][i].pop("decisions", None)
                c["steps"][i]["decisions"] = []
        for j, n in enumerate(s["nodes"]):
            for k in reversed(range(len(n["commands"]))):
                if len(n["commands"]) > 1:
                    m = new()["steps"][i]["nodes"][j]
                    del m["commands"][k]
                    kept = []
                    for f in m.get("faults", ()):
                        at = f.get("cmd", 0)
                        if at != k:
                            kept.append(dict(f, cmd=at - 1 if at > k else at))
                    m["faults"] = kept
            for k in range(len(n.get("faults", ()))):
                del new()["steps"][i]["nodes"][j]["faults"][k]
            if n.get("decisions"):
                new()["steps"][i]["nodes"][j]["decisions"] = []
                d = n["decisions"]
                for part in (len(d) // 2, len(d) * 3 // 4, len(d) - 1):
                    new()["steps"][i]["nodes"][j]["decisions"] = d[:part]
            for cpus in (1, 2, 3):
                if n.get("cpus", 4) > cpus:
                    new()["steps"][i]["nodes"][j]["cpus"] = cpus
            for k in ("jumps", "qweights"):
                if n.get(k):
                    del new()["steps"][i]["nodes"][j][k]
            for k, c in enumerate(n["commands"]):
                for x in range(len(c.get("scales") or ())):
                    if len(c["scales"]) > 1:
                        del new()["steps"][i]["nodes"][j]["commands"][k]["scales"][x]
                for opt in ("share", "chunksizes", "save", "load", "mp"):
                    if c.get(opt) and not (opt == "mp" and c["tool"] == "pci" and c.get("api") != "main"):
                        new()["steps"][i]["nodes"][j]["commands"][k].pop(opt)
                if c.get("index") == "scaled":
                    for index in ("spi", "pet", "pnp", "spei"):
                        m = new()["steps"][i]["nodes"][j]["commands"][k]
                        m["index"] = index
                        if index == "pet":
                            m.pop("scales", None)
        if s.get("decisions"):
            new()["steps"][i]["decisions"] = []
            d = s["decisions"]
            for part in (len(d) // 2, len(d) * 3 // 4, len(d) - 1):
                new()["steps"][i]["decisions"] = d[:part]
        if s.get("observe"):
            new()["steps"][i]["observe"] = 0
        if s.get("power") and s["power"].get("restore"):
            del new()["steps"][i]["power"]["restore"]
    used = set()
    for s in steps:
        for n in s["nodes"]:
            for c in n["commands"]:
                if c["tool"] == "put":
                    used.add(c["name"])
                for k in ("precip", "temp", "pet"):
                    if c.get(k):
                        used.add(c[k][0])
    unused = [f for f in spec["files"] if f not in used]
    if unused:
        c = new()
        for f in unused:
            del c["files"][f]
    if spec.get("other"):
        new().pop("other")

    def every_file(c, change):
        for name, fs in c["files"].items():
            change(fs)
        for s in c["steps"]:
            for n in s["nodes"]:
                for cmd in n["commands"]:
                    if cmd["tool"] == "put":
                        change(cmd["file"])

    def halve(key, least=1):
        def change(fs):
            g = fs["grid"]
            if g.get(key, 0) > least:
                g[key] = max(least, g[key] // 2)

        return change

    def less(key):
        def change(fs):
            g = fs["grid"]
            if g.get(key, 0) > 1:
                g[key] -= 1

        return change

    # (what's wrong with the files of an invalid command has to remain so)
    delicate = any(c.get("invalid") for s in steps for n in s["nodes"] for c in n["commands"])
    for change in () if delicate else (halve("nlat"), halve("nlon"), halve("ndiv"), less("nlat"), less("nlon"), less("ndiv")):
        every_file(new(), change)

    def years(fs):
        if fs["time"]["years"] > 3:
            fs["time"]["years"] -= 1

    if all(c.get("cal") is None or c["cal"] for s in steps for n in s["nodes"] for c in n["commands"]):
        c = new()
        every_file(c, years)
    for key in ("drop",):
        every_file(new(), lambda fs: fs["time"].pop(key, None))
    for key in ("dims", "dtype", "coord", "h5chunks"):
        every_file(new(), lambda fs, key=key: fs.pop(key, None))
    every_file(new(), lambda fs: fs.update(fmt="nc3"))
    every_file(new(), lambda fs: fs["grid"].pop("bend", None))
    for key in ("nan_cells", "nan_vals", "zeros", "const", "neg", "dry", "gaps", "late", "few", "tweak"):
        every_file(new(), lambda fs, key=key: [v.pop(key, None) for v in fs["vars"]])
    return [c for c in out if size(c) < size(spec)]


def minimise(report, lanes, limit):
    from .driver import first_kind

    size, candidates = lanes.engine.size, lanes.engine.candidates
    tried = set()
    best = report
    n = 0
    width = max(1, len(lanes.lanes))
    progress = True
    while progress and real_time() < limit:
        progress = False
        todo = []
        for c in candidates(best["spec"]):
            h = hash(json.dumps(c, sort_keys=True))
            if h not in tried:
                tried.add(h)
                todo.append(c)
        while todo and real_time() < limit:
            batch, todo = todo[:width], todo[width:]
            results = lanes.evaluate(batch, limit)
            n += len(batch)
            good = [(c, r) for c, r in zip(batch, results) if first_kind(r) == report["kind"]]
            if good:
                c, r = min(good, key=lambda x: size(x[0]))
                best = dict(best, spec=c, text=r["violations"][0]["text"], trace=r["trace"])
                progress = True
                break
    best["minimised"] = n
    return best
