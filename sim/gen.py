"""
Generation of cases: for each property, workloads which bring about the situations that it
speaks of.  Everything is drawn from the random generator that's passed in.
"""

import json
import re

from . import workload

SCALES = (1, 2, 3, 6, 9, 12)
LONG_SCALES = SCALES + (18, 24)
MM = ("mm", "mm", "millimeters", "Millimeter", "mm/dy", "inches", "inch", "Inches")
DEGREES = ("degree_celsius", "celsius", "C", "degrees_Celsius", "f", "fahrenheit", "degrees_fahrenheit", "k", "Kelvin")


def pick(rng, *options):
    return options[rng.randrange(len(options))]


def chance(rng, p):
    return rng.random() < p


# ----------------------------------------------------------------------------------------
# inputs
# ----------------------------------------------------------------------------------------
def grid(rng, kind="grid", small=False):
    if kind == "timeseries":
        return {"type": "timeseries"}
    if kind == "divisions":
        return {"type": "divisions", "ndiv": rng.randint(1, 4 if small else 7), "lat0": rng.choice((-40.0, 25.0, 41.5))}
    if small:
        nlat, nlon = rng.randint(2, 4), rng.randint(1, 2)
    else:
        nlat = rng.choice((1, 2, 3, 4, 5, 5, 6, 7, 8))
        nlon = rng.choice((1, 1, 2, 2, 3)) if nlat > 4 else rng.choice((1, 2, 3, 4))
        if chance(rng, 0.06):
            nlat, nlon = rng.choice(((rng.randint(9, 18), 1), (2, rng.randint(5, 9))))
    dlat = rng.choice((0.5, 1.25, 2.5, 5.0, -2.5, -1.25))
    lat0 = rng.choice((-55.0, -10.1, 0.3, 21.7, 37.9, 48.1))
    bend = {"bend": rng.choice((0.3, -0.4, 0.6))} if chance(rng, 0.25) else {}
    return {
        **bend,
        "type": "grid",
        "nlat": nlat,
        "nlon": nlon,
        "lat0": lat0,
        "dlat": dlat,
        "lon0": rng.choice((-124.7, -90.1, 0.0, 178.9)),
        "dlon": rng.choice((0.5, 1.25, 2.5)),
    }


def time(rng, period="monthly", small=False):
    if period == "daily":
        return {"year0": rng.choice((1996, 1997, 1999, 2003)), "years": rng.randint(2, 3 if small else 5), "period": "daily"}
    t = {"year0": rng.randint(1895, 2005), "years": rng.choice((3, 4, 5, 6, 7, 8, 8, 9)) if small else rng.randint(3, 12), "period": "monthly"}
    if chance(rng, 0.3):
        t["drop"] = rng.randint(1, 11)
    if chance(rng, 0.1):
        # the first month needn't be January
        t["shift"] = rng.randint(1, 11)
    if not small and chance(rng, 0.03):
        t["years"] = rng.randint(13, 40)
    return t


def variable(rng, kind, name=None, plain=False, period="monthly"):
    v = {"var": name or {"precip": "prcp", "temp": "tavg", "pet": "pet"}[kind], "kind": kind}
    v["seed"] = rng.randrange(1 << 30)
    if kind == "temp":
        v["units"] = "celsius" if plain else rng.choice(DEGREES)
        if not plain and chance(rng, 0.2):
            v["nan_vals"] = 0.02
    else:
        v["units"] = "mm" if plain else rng.choice(MM if kind == "precip" else MM[:4] + MM[5:])
        if not plain:
            if chance(rng, 0.4):
                v["zeros"] = rng.choice((0.05, 0.3, 0.7))
            if chance(rng, 0.25):
                v["nan_vals"] = rng.choice((0.01, 0.1))
            if chance(rng, 0.15):
                v["const"] = 0.3
            if kind == "precip" and chance(rng, 0.15):
                v["few"] = rng.choice((1, 2, 3, 4))
            if chance(rng, 0.1):
                v["neg"] = 0.03
            if kind == "precip" and chance(rng, 0.4):
                v["dry"] = rng.choice((0.3, 0.6))
                v["wet_years"] = rng.choice((0, 0, 0, 1, 2, 3))
            if chance(rng, 0.07):
                v["gaps"] = 0.3
            if chance(rng, 0.1):
                v["late"] = 0.4
    if chance(rng, 0.15 if plain else 0.3):
        v["nan_cells"] = rng.choice((0.15, 0.4))
    return v


def metric(v):
    return v["units"].lower() in ("mm", "millimeters", "millimeter", "mm/dy", "degree_celsius", "celsius", "c", "degrees_celsius")


def file(rng, g, t, variables, plain=False, coord=None):
    f = {"grid": g, "time": t, "vars": variables}
    # (opening the latter takes thirty times as long)
    f["fmt"] = "nc3" if chance(rng, 0.88) else "h5"
    if chance(rng, 0.15 if plain else 0.3):
        f["dims"] = "tfirst"
    if not plain and chance(rng, 0.25) and all(metric(v) for v in variables) and t["period"] == "monthly":
        f["dtype"] = "f4"
    elif not plain and chance(rng, 0.12) and all(metric(v) for v in variables):
        f["packed"] = True
    if chance(rng, 0.25):
        f["tunits"] = rng.choice(("hours since 1900-01-01", "days since 1800-01-01", "minutes since 1970-01-01"))
    if not plain and chance(rng, 0.1):
        f["extra"] = rng.choice(("bounds", "crs", "height", "all"))
    if coord:
        f["coord"] = coord
    if f["fmt"] == "h5" and chance(rng, 0.4):
        f["h5chunks"] = rng.choice((1, 2, 3))
    return f


def inputs(rng, kinds, period="monthly", gridtype="grid", small=False, plain=False, prefix="in/", g=None, t=None):
    """
    Files with variables of these kinds on the same grid and times.

    :return: files, sources (kind -> [file name, variable name])
    """
    g = g or grid(rng, gridtype, small)
    t = t or time(rng, period, small)
    files, src = {}, {}
    vs = {k: variable(rng, k, plain=plain, period=period) for k in kinds}
    if not plain:
        for k in kinds:
            if chance(rng, 0.15):
                vs[k]["var"] = {"precip": "p_total", "temp": "t2m", "pet": "evap"}[k]
    together = len(kinds) > 1 and chance(rng, 0.3)
    if together:
        name = prefix + "all.nc"
        files[name] = file(rng, g, t, [vs[k] for k in kinds], plain)
        for k in kinds:
            src[k] = [name, vs[k]["var"]]
        return files, src
    # coordinates of one of the files are rounded to single precision
    mixed = g["type"] == "grid" and g["nlat"] > 1 and g["nlon"] > 1 and len(kinds) > 1 and chance(rng, 0.5)
    which = rng.randrange(len(kinds))
    for i, k in enumerate(kinds):
        name = f"{prefix}{ {'precip': 'p', 'temp': 't', 'pet': 'e'}[k] }.nc"
        coord = None
        if mixed and i == which:
            coord = "f4"
        variables = [vs[k]]
        if not plain and chance(rng, 0.2):
            variables = [variable(rng, "precip", name="other_" + k)] + variables
            if chance(rng, 0.5):
                variables.reverse()
        files[name] = file(rng, g, t, variables, plain, coord)
        src[k] = [name, vs[k]["var"]]
    return files, src


# ----------------------------------------------------------------------------------------
# commands
# ----------------------------------------------------------------------------------------
def calibration(rng, t, strict=False):
    """years of calibration; parts of the data, and all of it, or (not strict) even more"""
    first, n = t["year0"], t["years"]
    if t.get("drop"):
        n -= 1
    n = max(n, 1)
    r = rng.random()
    if r < 0.45 or n < 2:
        return [first, first + n - 1]
    if r < 0.9 or strict:
        a = rng.randint(0, n - 1)
        b = rng.randint(a, n - 1)
        if b - a < 2:
            a, b = 0, n - 1
        return [first + a, first + b]
    return [first - 2, first + n + 3]


def scales(rng, n=None, t=None):
    options = SCALES if t is None or t["years"] > 3 else SCALES[:4]
    if t is not None and t["years"] > 5 and t["period"] == "monthly":
        options = LONG_SCALES
    n = n or rng.choice((1, 1, 2, 3))
    if n == 1 and chance(rng, 0.15):
        return [1]
    return rng.sample(options, min(n, len(options)))


def pci(rng, index, src, t, base, n_scales=None, strict=True):
    c = {
        "tool": "pci",
        "api": "main" if chance(rng, 0.3) else "call",
        "index": index,
        "period": t["period"],
        "base": base,
        "mp": rng.choice(("single", "all", "all", "all_but_one", None)),
        "cal": calibration(rng, t, strict),
    }
    if index != "pet":
        c["scales"] = scales(rng, n_scales, t)
    kinds = {"spi": ("precip",), "pnp": ("precip",), "pet": ("temp",)}.get(index, ("precip", "temp", "pet"))
    for k in kinds:
        if k in src:
            c[k] = src[k]
    if chance(rng, 0.2):
        c["chunksizes"] = "input"
    return spell(rng, c)


def spell(rng, c):
    """file names needn't be given in their normal form"""
    if chance(rng, 0.3):
        c["spell"] = rng.choice(("dot", "up", "double", "abs", "link", "link_abs"))
    return c


def spi(rng, src, t, base, n_scales=None, **kw):
    c = {
        "tool": "spi",
        "period": t["period"],
        "base": base,
        "mp": rng.choice(("single", "all", "all", "all_but_one", None)),
        "cal": calibration(rng, t),
        "scales": scales(rng, n_scales, t),
        "precip": src["precip"],
    }
    c.update(kw)
    return spell(rng, c)


# How finely workers are interleaved (weights of core.QUANTA: to the end, 1, 2, 3, 5, 9, 17,
# 40, 120, 600, 3000).  A swarm: each node gets one of these.
QWEIGHTS = (
    None,
    (1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
    (6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1),
    (1, 1, 1, 1, 1, 2, 2, 3, 3, 1, 1),
    (1, 4, 4, 4, 4, 4, 3, 2, 1, 1, 1),
    (4, 0, 0, 0, 0, 0, 1, 3, 1, 0, 0),
)


def node(rng, commands, pid=100, **kw):
    n = {
        "seed": rng.randrange(1 << 30),
        "pid": pid,
        "cpus": rng.choice((1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 16, 64)),
        "commands": commands,
    }
    w = rng.choice(QWEIGHTS)
    if w:
        n["qweights"] = list(w)
    if chance(rng, 0.2):
        n["start"] = "spawn"
    n["hashkey"] = rng.randrange(1, 1 << 30)
    n["clock"] = rng.choice((0.0, 9.4e8, 1.6e9, 4.1e9, float(rng.randint(1, 2 * 10**9))))
    if chance(rng, 0.3):
        n["jumps"] = [[rng.randint(1, 3), rng.choice((-1e6, -3600.0, 3600.0, 1e7))]]
    n.update(kw)
    return n


def step(rng, nodes, **kw):
    s = {"do": "run", "nodes": nodes, "seed": rng.randrange(1 << 30)}
    s.update(kw)
    return s


def case(files, steps, **kw):
    c = {"files": files, "steps": steps}
    c.update(kw)
    if any(h["tool"] == "spi" for s in steps for n in s["nodes"] for h in n["commands"]):
        # (the SPI program fails for coordinates without a dimension)
        c = json.loads(re.sub(r'"extra": "(height|all)"', '"extra": "crs"', json.dumps(c)))
    return renamed(c)


def renamed(spec):
    """sometimes with names of files in which there's more than letters"""
    how = spec["steps"][0]["seed"] % 23
    if how > 2:
        return spec
    text = json.dumps(spec)
    if how < 2 and '"base": "in/' not in text:
        text = re.sub(r'"in/([^"]*)\.nc"', r'"in/\1 [v*]{1}.nc"', text)
    if how > 0:
        text = re.sub(r'"out/([xs])(?=["_])', r'"out/\1.v1 [%d]', text)
    return json.loads(text)


OTHER = {
    "out/README.txt": "notes",
    "out/old_spi_gamma_03.nc.tmp": "somebody else's file",
    "out/x.nc": "not a netCDF",
    "in/keep.csv": "1,2,3",
}


def stalls(rng, n):
    return [
        {"k": "stall_worker", "at": rng.randint(1, 30), "len": rng.randint(1, 30), "cmd": rng.randrange(max(n, 1))}
        for _ in range(rng.randint(0, 2))
    ]


# ----------------------------------------------------------------------------------------
# workloads
# ----------------------------------------------------------------------------------------
def any_pci(rng, base="out/x", small=False, plain=False, index=None, n_scales=None, gridtype=None, prefix="in/"):
    """
    A command of process_climate_indices and its inputs.

    :return: files, command, time
    """
    index = index or rng.choice(("spi", "spi", "pnp", "pnp", "pet", "pet", "spei", "spei", "scaled"))
    if gridtype is None:
        gridtype = rng.choice(("grid",) * 7 + ("divisions", "divisions", "timeseries"))
    if gridtype == "timeseries" and index not in ("spi", "pnp"):
        gridtype = "grid"
    daily = gridtype == "grid" and index in ("spi", "pnp", "spei") and chance(rng, 0.08)
    daily = daily or gridtype == "timeseries" and chance(rng, 0.25)
    period = "daily" if daily else "monthly"
    g = t = None
    if daily:
        g = dict(grid(rng, "grid", True), nlat=rng.randint(1, 3), nlon=1) if gridtype == "grid" else {"type": gridtype}
        t = time(rng, "daily", True)
        n_scales = 1
    if index in ("spi", "pnp"):
        kinds = ("precip",)
    elif index == "pet":
        kinds = ("temp",)
    else:
        kinds = ("precip", "pet") if (daily or chance(rng, 0.4)) else ("precip", "temp")
    files, src = inputs(rng, kinds, period, gridtype, small, plain, prefix, g=g, t=t)
    t = next(iter(files.values()))["time"]
    if index == "scaled":
        n_scales = 1
    strict = index in ("pnp", "scaled")
    c = pci(rng, index, src, t, base, n_scales, strict)
    short_scales(rng, files, c)
    if chance(rng, 0.2):
        own_pet(rng, files, c)
    return files, c, t


def own_pet(rng, files, c):
    """a PET file given by the user may have the name which the program uses for its own"""
    if not c.get("pet") or c["pet"] and any(c[k][0] == c["pet"][0] for k in ("precip", "temp") if c.get(k)):
        return
    old, var = c["pet"]
    name = f"{c['base']}_pet_thornthwaite.nc"
    f = files.pop(old)
    if chance(rng, 0.6):
        f = dict(f, vars=[dict(v, var="pet_thornthwaite") if v["var"] == var else v for v in f["vars"]])
        var = "pet_thornthwaite"
    files[name] = f
    c["pet"] = [name, var]


def bystanders(rng, c):
    """files of the user whose names resemble those of outputs"""
    base = c["base"]
    names = (
        f"{base}_notes.txt",
        f"{base}_spi_gamma_99.nc",
        f"{base}_spi_gamma_03.nc.31337.tmp",
        f"{base}_spi_gamma_01.nc.bak",
        f"{base}_pnp_03.nc.31337.tmp",
        f"{base}_pet_thornthwaite.nc.31337.tmp",
        f"{base}_pet_thornthwaite.nc~",
        f"{base}_spi_gamma_3_month.nc.31337.tmp",
        f"{base}.nc",
        f"{base}.tmp",
        f"{base}",
        f"{base}_params.nc",
    )
    return {name: "of the user: " + name for name in rng.sample(names, rng.randint(1, 5))}


def any_spi(rng, base="out/s", small=False, plain=False, prefix="in/", n_scales=None, **kw):
    daily = chance(rng, 0.06) and not small
    g = t = None
    if daily:
        g = dict(grid(rng, "grid", True), nlat=rng.randint(1, 2), nlon=1)
        t = time(rng, "daily", True)
        n_scales = 1
    files, src = inputs(rng, ("precip",), "daily" if daily else "monthly", "grid", small, plain, prefix, g=g, t=t)
    t = next(iter(files.values()))["time"]
    c = spi(rng, src, t, base, n_scales, **kw)
    short_scales(rng, files, c)
    return files, c, t


def short_scales(rng, files, c):
    """a month is dry only if the sums are of a few months"""
    if c.get("precip") and c.get("scales") and len(c["scales"]) == 1 and chance(rng, 0.7):
        if any(v.get("dry") for v in files[c["precip"][0]]["vars"]):
            c["scales"] = [rng.choice((1, 2, 3))]


def names_of(c, files):
    """names of the files which a command writes, without the part that's its own"""
    return [name[len(c["base"]) :] for name, _ in workload.expected_outputs(c, files) if name.startswith(c["base"] + "_")]


def c01(rng):
    files, c, _ = any_pci(rng)
    n = node(rng, [c])
    n["faults"] = stalls(rng, 1)
    return case(files, [step(rng, [n])])


def c02(rng):
    kw = {"save": "out/params.nc"} if chance(rng, 0.5) else {}
    files, c, _ = any_spi(rng, **kw)
    n = node(rng, [c])
    n["faults"] = stalls(rng, 1)
    return case(files, [step(rng, [n])])


def c03(rng):
    """several scales and indices in one command"""
    small = True
    if chance(rng, 0.35):
        files, c, t = any_spi(rng, small=small, n_scales=rng.choice((2, 3)))
        if chance(rng, 0.5):
            c["save"] = "out/params.nc"
    else:
        index = rng.choice(("spi", "pnp", "pnp", "spei", "scaled", "scaled"))
        files, c, t = any_pci(rng, small=small, index=index, gridtype=rng.choice(("grid", "grid", "grid", "divisions")))
        if t["period"] == "monthly":
            c["scales"] = scales(rng, rng.choice((2, 3)) if index in ("pnp", "spi") else 2, t)
    if chance(rng, 0.15):
        c["scales"] = c["scales"] + [c["scales"][0]]
    n = node(rng, [c])
    steps = [step(rng, [n], id="joint")]
    same = []
    if chance(rng, 0.4):
        # each of the scales by itself (each index too), what's written has to be the same
        alone = []
        kinds = (c["index"],) if c["tool"] == "pci" else (None,)
        if c["tool"] == "pci" and c["index"] == "scaled":
            kinds = ("spi", "pnp", "spei")
        for s in dict.fromkeys(c["scales"]):
            for k in kinds:
                one = dict(c, scales=[s], base=f"out/y{s}")
                one.pop("save", None)
                if k:
                    one["index"] = k
                    for x in ("temp", "pet"):
                        if k in ("spi", "pnp"):
                            one.pop(x, None)
                alone.append(one)
        rng.shuffle(alone)
        alone = alone[:3]
        for one in alone:
            same += [[["joint", c["base"] + x], ["alone", one["base"] + x]] for x in names_of(one, files)]
        steps.append(step(rng, [node(rng, alone, pid=200)], id="alone"))
    return case(files, steps, same=same)


def c04(rng):
    """save fitting parameters, then use them; runs without them in between"""
    scale_sets = rng.sample(SCALES, rng.choice((2, 3)))
    if chance(rng, 0.45):
        # one of the names of variables is a part of another
        scale_sets = list(rng.choice(((12, 2), (12, 1), (2, 12), (12, 2, 1), (1, 12), (11, 1))))
    files, c, t = any_spi(rng, small=True, n_scales=1, save="out/params.nc")
    c["scales"] = scale_sets[: rng.choice((1, 2, 2))]
    g = files[c["precip"][0]]["grid"]
    # other inputs, mostly for the same cells
    sources = [({"precip": c["precip"]}, t)]
    for i in range(rng.choice((1, 1, 2))):
        g2 = g
        if chance(rng, 0.25):
            # as many cells, or not, but elsewhere
            places = ["half", "lon", "lon", "shape", "odd", "flip", "fliplon"]
            g2 = misfit(rng, {"grid": g, "time": t}, places)[0]["grid"]
        t2 = t if chance(rng, 0.4) else None
        more, src2 = inputs(rng, ("precip",), t["period"], "grid", True, False, f"in/{i}_", g=g2, t=t2)
        if chance(rng, 0.5):
            # the variable's name is the same
            name = src2["precip"][0]
            f = more[name] = dict(more[name])
            f["vars"] = [dict(v, var=c["precip"][1] if v["var"] == src2["precip"][1] else v["var"]) for v in f["vars"]]
            src2["precip"] = [name, c["precip"][1]]
        files.update(more)
        sources.append((src2, next(iter(more.values()))["time"]))
    history = [c]
    saved = {"out/params.nc": c}
    if chance(rng, 0.35):
        history += c04_history(rng, c, sources, files, scale_sets)
    more = rng.randint(1, 4) if len(history) == 1 else rng.randint(0, 1)
    for i in range(more):
        r = rng.random()
        src, ts = rng.choice(sources)
        if r < 0.45:
            name = rng.choice(sorted(saved))
            of = saved[name]
            if chance(rng, 0.8):
                # for the same cells as these parameters
                same = [x for x in sources if files[x[0]["precip"][0]]["grid"] == files[of["precip"][0]]["grid"]]
                src, ts = rng.choice(same or sources)
            use = spi(rng, src, ts, f"out/l{i}", load=name)
            sub = list(of["scales"])
            rng.shuffle(sub)
            use["scales"] = sub[: rng.randint(1, len(sub))]
            use["cal"] = of["cal"] if chance(rng, 0.3) else calibration(rng, ts)
            if chance(rng, 0.25):
                others = [s for s in scale_sets if s not in of["scales"]] or [s for s in SCALES if s not in of["scales"]]
                use["scales"] = use["scales"] + others[:1]
                if chance(rng, 0.3):
                    use["scales"] = others[:1]
            history.append(use)
        elif r < 0.6:
            # without any parameters
            plain = spi(rng, src, ts, f"out/n{i}", n_scales=1)
            if chance(rng, 0.7):
                plain["scales"] = [rng.choice(scale_sets)]
            history.append(plain)
        elif r < 0.68:
            history.append(dict(c, base=f"out/again{i}"))  # must be refused
        elif r < 0.95:
            name = rng.choice(("out/params.nc", "out/p2.nc"))
            again = spi(rng, src, ts, f"out/r{i}", save=name, overwrite=True)
            again["scales"] = list(c["scales"]) if chance(rng, 0.6) else rng.sample(scale_sets, 1)
            history.append(again)
            saved[name] = again
        else:
            history.append(spi(rng, src, ts, f"out/b{i}", n_scales=1, save="out/p2.nc", load="out/params.nc"))
    if chance(rng, 0.6):
        return case(files, [step(rng, [node(rng, history)])])
    steps = [step(rng, [node(rng, [h], pid=100 + i)]) for i, h in enumerate(history)]
    return case(files, steps)


def c04_history(rng, c, sources, files, scale_sets):
    """some histories that have to be among those which are executed"""
    same = [x for x in sources if files[x[0]["precip"][0]]["grid"] == files[c["precip"][0]]["grid"]]

    def use(name, load, scales, base):
        u = spi(rng, *rng.choice(same), base, load=load)
        u["scales"] = list(scales)
        return u

    def save(name, scales, base, other=False):
        s = spi(rng, *rng.choice(same[-1:] if other else same), base, save=name, overwrite=True)
        s["scales"] = list(scales)
        return s

    of = c["scales"]
    rest = [s for s in scale_sets if s not in of] or [s for s in SCALES if s not in of][:2]
    k = rng.randrange(5)
    if k == 0:
        # replaced by those for other scales
        return [save(c["save"], rest, "out/ra"), use(0, c["save"], rng.choice((of, rest, of + rest)), "out/la")]
    if k == 1:
        # replaced by those of other precipitation, loaded before and after
        one = use(0, c["save"], of, "out/la")
        return [one, save(c["save"], of, "out/ra", True), dict(one, base=rng.choice(("out/la", "out/lb")))]
    if k == 2:
        # two files for the same scales
        one = use(0, c["save"], of, "out/la")
        return [save("out/p2.nc", of, "out/ra", True), one, dict(one, load="out/p2.nc", base="out/lb")]
    if k == 3:
        # one of the scales only, the last one of them
        return [use(0, c["save"], of[-1:], "out/la"), use(0, c["save"], of[::-1], "out/lb")]
    # loaded, and then without
    one = use(0, c["save"], of, "out/la")
    two = dict(one, base="out/n")
    two.pop("load")
    return [one, two]


def revised(rng, v):
    """the same variable in another edition of a file"""
    if chance(rng, 0.4):
        # there's hardly any difference
        return dict(v, tweak=rng.choice(("one", "all", "all", "last", "bit")))
    if chance(rng, 0.3):
        # the same data in other units
        units = DEGREES if v["kind"] == "temp" else MM if v["kind"] == "precip" else MM[:4] + MM[5:]
        others = [u for u in units if metric({"units": u}) != metric(v)]
        v = dict(v, units=rng.choice(others))
        if chance(rng, 0.5):
            return v
    v = dict(v, seed=rng.randrange(1 << 30))
    if chance(rng, 0.5):
        v["units"] = rng.choice(DEGREES if v["kind"] == "temp" else MM if v["kind"] == "precip" else MM[:4] + MM[5:])
    if chance(rng, 0.3):
        if v.get("nan_cells"):
            v.pop("nan_cells")
        else:
            v["nan_cells"] = 0.3
    return v


def editions(rng, files, c, shape=None):
    """
    Other editions of the inputs of a command: of one of them, or if the grid or the times are
    others, of all of them.

    :return: file name -> file specification
    """
    names = sorted({c[k][0] for k in ("precip", "temp", "pet") if c.get(k)})
    first = files[names[0]]
    g, t = dict(first["grid"]), dict(first["time"])
    shape = chance(rng, 0.4) if shape is None else shape
    if shape:
        if chance(rng, 0.5) or g["type"] == "timeseries":
            t["years"] += rng.choice((1, 2))
        elif g["type"] == "grid":
            k = rng.choice(("nlat", "nlon", "lat0"))
            g[k] = rng.randint(1, 5) if k != "lat0" else rng.choice((-20.0, 10.0, 47.3))
        else:
            g["ndiv"] = rng.randint(1, 6)
    else:
        names = [rng.choice(names)]
    out = {}
    for name in names:
        old = files[name]
        new = dict(old, grid=g, time=t, vars=[revised(rng, v) for v in old["vars"]])
        if old.get("dtype") == "f4" and not all(metric(v) for v in new["vars"]):
            new.pop("dtype")
        if chance(rng, 0.2):
            if new.get("dims"):
                new.pop("dims")
            else:
                new["dims"] = "tfirst"
        if chance(rng, 0.2):
            new["fmt"] = "h5" if old["fmt"] == "nc3" else "nc3"
            new.pop("h5chunks", None)
        if "coord" in new and (g["nlat"] == 1 or g["nlon"] == 1):
            new.pop("coord")
        out[name] = new
    return out


def c05(rng):
    """a history of commands in one process"""
    files, history = {}, []
    n = rng.choice((2, 2, 3, 3, 4))
    prev = None
    for i in range(n):
        r = rng.random()
        base = f"out/c{i}"
        if prev and r < 0.14:
            # the same command again, the same arguments object perhaps
            c = dict(prev)
            if c["tool"] == "pci":
                c["api"] = "call"
                c["share"] = "s"
                prev.update(api="call", share="s")
            if c.get("save"):
                c["overwrite"] = True
            history.append(c)
            continue
        if prev and r < 0.45:
            # an input has been replaced meanwhile
            bind = dict(files)
            for h in history:
                if h["tool"] == "put":
                    bind[h["name"]] = h["file"]
            for name, new in editions(rng, bind, prev).items():
                history.append({"tool": "put", "name": name, "file": new})
            c = dict(prev, base=base, **({"overwrite": True} if prev.get("save") else {}))
            c.pop("share", None)
            history.append(c)
            continue
        prefix = f"in/{i}_" if chance(rng, 0.6) else "in/"
        if r < 0.8:
            f, c, _ = any_pci(rng, base, small=True, prefix=prefix, n_scales=1)
        else:
            f, c, _ = any_spi(rng, base, small=True, prefix=prefix, n_scales=1)
            if chance(rng, 0.3):
                c["save"] = f"out/params{i}.nc"
        if any(name in files for name in f):
            f = {name.replace("in/", f"in/{i}_"): v for name, v in f.items()}
            for k in ("precip", "temp", "pet"):
                if c.get(k):
                    c[k] = [c[k][0].replace("in/", f"in/{i}_"), c[k][1]]
        if chance(rng, 0.12):
            spoil(rng, c)
        files.update(f)
        history.append(c)
        if not c.get("invalid"):
            prev = c
    steps = [step(rng, [node(rng, history)], id="history")]
    last = history[-1]
    if chance(rng, 0.4) and last["tool"] != "put" and not last.get("invalid"):
        # what the last one writes is what it writes in a process of its own
        again = rerun(last)
        again.pop("share", None)
        again["base"] = "out/fresh"
        bind = dict(files)
        for c in history:
            if c["tool"] == "put":
                bind[c["name"]] = c["file"]
        same = [[["history", last["base"] + x], ["fresh", "out/fresh" + x]] for x in names_of(again, bind)]
        steps.append(step(rng, [node(rng, [again], pid=200)], id="fresh"))
        return case(files, steps, same=same)
    return case(files, steps)


def spoil(rng, c):
    """make a command one that has to be refused"""
    r = rng.randrange(3)
    if r == 0:
        k = [k for k in ("precip", "temp", "pet") if c.get(k)][0]
        c[k] = [c[k][0], "nonexistent"]
        c["invalid"] = "there's no such variable"
    elif r == 1:
        k = [k for k in ("precip", "temp", "pet") if c.get(k)][0]
        c[k] = ["in/nonexistent.nc", c[k][1]]
        c["invalid"] = "there's no such file"
    elif c.get("scales"):
        c["scales"] = [-3] + c["scales"]
        c["invalid"] = "a scale is negative"
    return c


def faulty(rng, load=0.0):
    """
    A short command to be disturbed.

    :param load: how often SPI is computed with fitting parameters that are loaded
    """
    if chance(rng, 0.4):
        files, c, t = any_spi(rng, small=True, plain=chance(rng, 0.6), n_scales=1)
        if load and chance(rng, load) and t["period"] == "monthly":
            c["load"] = "out/params.nc"
        elif chance(rng, 0.5):
            c["save"] = "out/params.nc"
    else:
        index = rng.choice(("spi", "pnp", "pnp", "pet", "pet", "spei", "scaled"))
        files, c, t = any_pci(rng, small=True, plain=chance(rng, 0.6), index=index, gridtype=rng.choice(("grid",) * 5 + ("divisions",)), n_scales=1)
    return files, c, t


def prelude(rng, files, c):
    """what has to have been executed before: the run which saves fitting parameters"""
    if not c.get("load"):
        return []
    g = files[c["precip"][0]]["grid"]
    more, src = inputs(rng, ("precip",), "monthly", "grid", True, True, "in/q_", g=g)
    files.update(more)
    before = spi(rng, src, next(iter(more.values()))["time"], "out/q", save=c["load"])
    before["scales"] = list(c["scales"])
    return [step(rng, [node(rng, [before], pid=90)])]


def rerun(c):
    c = dict(c)
    if c.get("save"):
        c["overwrite"] = True
    return c


def c06(rng):
    files, c, _ = faulty(rng, 0.15)
    first = prelude(rng, files, c)
    n = node(rng, [c], cpus=rng.choice((2, 3, 4, 4, 6)))
    if c.get("mp") == "single":
        c["mp"] = "all"
    steps = first + [step(rng, [n]), step(rng, [node(rng, [rerun(c)], pid=200)])]
    return case(files, steps, target=len(first))


def c07(rng):
    files, c, _ = faulty(rng, 0.5)
    first = prelude(rng, files, c)
    if chance(rng, 0.5):
        # there are outputs of an earlier run, of other inputs
        old = editions(rng, files, c, False if c.get("load") else None)
        puts = [{"tool": "put", "name": name, "file": files[name]} for name in old]
        files.update(old)
        first += [step(rng, [node(rng, [c] + puts, pid=90)])]
    c = rerun(c)
    other = {"other": bystanders(rng, c)} if chance(rng, 0.3) else {}
    return case(
        files,
        first + [step(rng, [node(rng, [c])]), step(rng, [node(rng, [rerun(c)], pid=rng.choice((100, 200)))])],
        target=len(first),
        **other,
    )


c08 = c07


def c09(rng):
    files, c, _ = faulty(rng, 0.5)
    first = prelude(rng, files, c)
    if chance(rng, 0.5):
        # outputs go where the inputs are
        c["base"] = "in/" + rng.choice(("p", "t", "x"))
        if c.get("save"):
            c["save"] = "in/params.nc"
    if chance(rng, 0.5):
        own_pet(rng, files, c)
    other = dict(OTHER) if chance(rng, 0.5) else {}
    if chance(rng, 0.7):
        other.update(bystanders(rng, c))
    for name in files:
        other.pop(name, None)
    steps = first + [step(rng, [node(rng, [c])]), step(rng, [node(rng, [rerun(c)], pid=200)])]
    return case(files, steps, other=other, target=len(first))


def c10(rng):
    """processes which share a directory"""
    n = rng.choice((2, 2, 2, 3))
    files, nodes = {}, []
    mode = rng.choice(("separate", "shared-input", "same", "same-then-other", "params"))
    if mode == "params":
        return c10_params(rng, n)
    shared = None
    bases = rng.sample(("out/a", "out/b", "out/a_spi", "out/ab", "out/a_pet", "out/c"), n)
    for i in range(n):
        if mode == "separate" or shared is None:
            f, c, t = faulty(rng)
            f = {k.replace("in/", f"in/{i}_"): v for k, v in f.items()}
            c = dict(c)
            for k in ("precip", "temp", "pet"):
                if c.get(k):
                    c[k] = [c[k][0].replace("in/", f"in/{i}_"), c[k][1]]
            files.update(f)
            shared = c
        else:
            c = dict(shared)
        if mode == "same":
            c["base"] = bases[0]
            if c.get("save"):
                c["save"] = "out/params.nc"
                c["overwrite"] = True
        else:
            c["base"] = bases[i]
            if c.get("save"):
                c["save"] = f"out/params{i}.nc"
        nodes.append(node(rng, [c], pid=100 + i))
    s = step(rng, nodes, observe=1)
    return case(files, [s])


def c10_params(rng, n):
    """fitting parameters are replaced while others load them"""
    files, c, t = any_spi(rng, small=True, plain=chance(rng, 0.5), n_scales=1, base="out/a", save="out/params.nc", overwrite=True)
    nodes = []
    if t["period"] != "monthly":
        c["scales"] = c["scales"][:1]
    again = editions(rng, files, c, False)
    name = c["precip"][0]
    files["in/new.nc"] = again[name]
    later = dict(c, precip=["in/new.nc", c["precip"][1]], base="out/b")
    nodes.append(node(rng, [later], pid=100))
    for i in range(1, n):
        use = dict(c, base=f"out/l{i}", load=c["save"])
        use.pop("save")
        use.pop("overwrite")
        if chance(rng, 0.5):
            use["precip"] = later["precip"]
        nodes.append(node(rng, [use] if chance(rng, 0.6) else [use, dict(use, base=f"out/m{i}")], pid=100 + i))
    return case(files, [step(rng, [node(rng, [c], pid=90)]), step(rng, nodes, observe=1)])


def c12(rng):
    files, c, _ = faulty(rng, 0.5)
    first = prelude(rng, files, c)
    n = node(rng, [c, rerun(c)] if chance(rng, 0.5) else [c])
    steps = first + [step(rng, [n]), step(rng, [node(rng, [rerun(c)], pid=200)])]
    return case(files, steps, target=len(first))


def c13(rng):
    """PET computed by the command itself is what its SPEI is computed from"""
    index = rng.choice(("spei", "spei", "scaled"))
    small = True
    g = grid(rng, rng.choice(("grid", "grid", "grid", "divisions")), small)
    files, src = inputs(rng, ("precip", "temp"), "monthly", g["type"], small, chance(rng, 0.5), "in/", g=g)
    t = next(iter(files.values()))["time"]
    c = pci(rng, index, src, t, "out/x", 1)
    if g["type"] == "grid" and chance(rng, 0.15):
        # the precipitation file holds PET as well, but that isn't the one that's to be used
        # (xarray doesn't merge that with the PET that's computed, which is an error)
        f = files[src["precip"][0]] = dict(files[src["precip"][0]])
        if not any(v["kind"] == "pet" for v in f["vars"]):
            f["vars"] = f["vars"] + [variable(rng, "pet", name="pet_thornthwaite", plain=True)]
        c["may_fail"] = True
    # what an earlier command left: PET of other temperatures (perhaps in another shape)
    name = src["temp"][0]
    steps, history = [], []
    before = rng.choice(("other-temp", "other-grid", "nothing", "other-temp", "chain", "chain"))
    if before == "chain":
        # the PET file that one command has written is given to another one
        first = dict(c, base="out/y", index="pet", spell=None)
        for k in ("precip", "scales"):
            first.pop(k, None)
        if chance(rng, 0.5):
            first["base"] = c["base"]
        history = [first]
        if chance(rng, 0.5):
            # the temperatures are others now, but not the PET
            history.append({"tool": "put", "name": name, "file": dict(files[name], vars=[revised(rng, v) for v in files[name]["vars"]])})
        second = dict(c, pet=[first["base"] + "_pet_thornthwaite.nc", "pet_thornthwaite"])
        second.pop("temp")
        history.append(second)
        if chance(rng, 0.3):
            history.append(dict(c, base="out/z"))
        if chance(rng, 0.5):
            return case(files, [step(rng, [node(rng, [h], pid=100 + i)]) for i, h in enumerate(history)])
        return case(files, [step(rng, [node(rng, history)])])
    if before == "other-temp":
        old = dict(files[name], vars=[revised(rng, v) for v in files[name]["vars"]])
        new, files[name] = files[name], old
        history = [dict(c, index=rng.choice(("pet", index)), api="call"), {"tool": "put", "name": name, "file": new}]
        if history[0]["index"] == "pet":
            history[0].pop("precip", None)
            history[0].pop("scales", None)
    elif before == "other-grid":
        f2, src2 = inputs(rng, ("temp",), "monthly", "grid", small, True, "in/o_")
        files.update(f2)
        history = [pci(rng, "pet", src2, next(iter(f2.values()))["time"], "out/x")]
    if history and chance(rng, 0.5):
        steps.append(step(rng, [node(rng, history, pid=90)]))
        history = []
    c2 = dict(c, api="call", share="a")
    history += [c2]
    if chance(rng, 0.5):
        # and again with the same arguments, after the temperatures have changed
        newer = dict(files[name] if before != "other-temp" else new)
        newer = dict(newer, vars=[revised(rng, v) for v in newer["vars"]])
        history += [{"tool": "put", "name": name, "file": newer}, dict(c2)]
    steps.append(step(rng, [node(rng, history)]))
    return case(files, steps)


def c14(rng):
    """the same command in two quite different environments"""
    files, c, t = any_pci(rng, small=chance(rng, 0.5)) if chance(rng, 0.5) else any_spi(rng, small=chance(rng, 0.7))
    c = rerun(c)
    a = node(rng, [c], cpus=1)
    b = node(rng, [c], pid=rng.randint(200, 30000), cpus=rng.choice((2, 3, 5, 7, 12, 64)))
    if c.get("mp") == "single":
        c["mp"] = "all"
    if c.get("chunksizes") and chance(rng, 0.5):
        c.pop("chunksizes")
    outputs = [name for name, _ in workload.expected_outputs(c, files)]
    same = [[["one", name], ["other", name]] for name in outputs]
    return case(files, [step(rng, [a], id="one"), step(rng, [b], id="other")], same=same)


def misfit(rng, f, kinds=None):
    """
    Another edition of a file, about other places or times than it was.

    :return: file specification, what's wrong with it
    """
    g, t = f["grid"], f["time"]
    options = ["month", "year"]
    if t["period"] == "monthly":
        options += ["shift"] * 2 + ["gap"] * 2
    if g["type"] == "grid":
        options += ["half", "lon", "shape", "shape", "order"]
        if g["nlat"] > 2:
            options += ["odd"] * 3
        if g["nlat"] > 1:
            options += ["flip"] * 2
        if g["nlon"] > 1:
            options += ["fliplon"]
    elif g["type"] == "divisions":
        options += ["ids", "count"]
        if g["ndiv"] > 1:
            options += ["rolled"] * 3
    k = rng.choice([o for o in options if kinds is None or o in kinds] or options)
    g, t, f = dict(g), dict(t), dict(f)
    if k == "month":
        t["drop"] = t.get("drop", 0) + rng.choice((1, 3)) if t["period"] == "monthly" else 0
        if t["period"] != "monthly":
            t["years"] += 1
    elif k == "year":
        t["year0"] += rng.choice((-1, 1, 4))
    elif k == "shift":
        t["shift"] = (t.get("shift", 0) + 1) % 12
    elif k == "gap":
        t["gap"] = rng.randrange(1, 12 * t["years"] - 12)
    elif k == "half":
        g["lat0"] += 0.5 * g["dlat"]
    elif k == "lon":
        g["lon0"] += rng.choice((0.5, 1.0, -3.0)) * g["dlon"]
    elif k == "shape":
        n = rng.choice(("nlat", "nlon"))
        g[n] = max(1, g[n] + rng.choice((-1, 1, 2))) if g[n] > 1 else g[n] + 1
    elif k == "order":
        f["dims"] = "lonfirst"
    elif k == "odd":
        g["odd"] = rng.choice((0.3, -0.3, 0.45))
    elif k == "flip":
        g["flip"] = "lat"
    elif k == "fliplon":
        g["flip"] = "lon"
    elif k == "ids":
        g["odd"] = 1
    elif k == "count":
        g["ndiv"] += 1
    elif k == "rolled":
        g["flip"] = "division"
    f.update(grid=g, time=t)
    f.pop("h5chunks", None)
    return f, k


def refused(rng, files, c):
    """
    A command like this one, but it has to be refused.

    :return: command, or None
    """
    c = dict(c, scales=list(c["scales"])) if c.get("scales") else dict(c)
    kinds = [k for k in ("precip", "temp", "pet") if c.get(k)]
    options = ["variable", "file", "cut", "no-variable", "order"]
    if c["tool"] == "pci":
        if c["index"] in ("spei", "scaled"):
            options += ["misfit"] * 8 + ["both", "neither", "mixed"]
        if c["index"] == "pet":
            options += ["daily"] * 2
        else:
            options += ["no-precip"]
        options += ["index", "mp", "chunks", "unit"]
    else:
        options += ["load-missing", "both-params", "unit", "mp", "no-precip", "exists", "exists"]
    if c.get("scales"):
        options += ["negative", "no-scales"]
    for how in rng.sample(options, len(options)):
        k = rng.choice(kinds)
        if how == "misfit":
            other = "pet" if c.get("pet") else "temp"
            k = rng.choice((other, other, "precip"))
            if c["precip"][0] == c[other][0]:
                continue
            new, what = misfit(rng, files[c[k][0]])
            name = c[k][0].replace(".nc", "_other.nc")
            files[name] = new
            c[k] = [name, c[k][1]]
            how = f"misfit ({what})"
        elif how == "mixed":
            # not even the same kind of data
            other = "pet" if c.get("pet") else "temp"
            f = files[c[other][0]]
            if f["time"]["period"] != "monthly":
                continue
            to = rng.choice([x for x in ("grid", "divisions", "timeseries") if x != f["grid"]["type"]])
            new = dict(f, grid=grid(rng, to, True))
            if to != "grid":
                for x in ("dims", "h5chunks", "coord"):
                    new.pop(x, None)
            files["in/mixed.nc"] = new
            c[other] = ["in/mixed.nc", c[other][1]]
        elif how == "order":
            f = files[c[k][0]]
            if f["grid"]["type"] != "grid":
                continue
            files["in/order.nc"] = dict(f, dims="lonfirst")
            files["in/order.nc"].pop("h5chunks", None)
            c[k] = ["in/order.nc", c[k][1]]
        elif how == "cut":
            if len(files[c[k][0]]["vars"]) > 1:
                continue
            files["in/cut.nc"] = dict(files[c[k][0]], cut=rng.choice((0.001, 0.02, 0.4, 0.8)))
            c[k] = ["in/cut.nc", c[k][1]]
        elif how == "unit":
            f = files[c[k][0]]
            files["in/unit.nc"] = dict(f, vars=[dict(v, units="furlong") if v["var"] == c[k][1] else v for v in f["vars"]])
            c[k] = ["in/unit.nc", c[k][1]]
            if c["tool"] == "pci" and c["index"] == "scaled":
                c["index"] = "spei"
            c["partial"] = k != "temp"
        elif how == "variable":
            c[k] = [c[k][0], rng.choice(("nonexistent", c[k][1] + "x", c[k][1].upper()))]
        elif how == "no-variable":
            c[k] = [c[k][0], None]
        elif how == "file":
            c[k] = ["in/nonexistent.nc", c[k][1]]
        elif how == "both":
            c.setdefault("pet", c.get("temp"))
            c.setdefault("temp", c.get("pet"))
        elif how == "neither":
            c.pop("pet", None)
            c.pop("temp", None)
        elif how == "no-precip":
            c.pop("precip")
        elif how == "daily":
            c["period"] = "daily"
        elif how == "index":
            c.update(index="nonsense", api="main")
        elif how == "mp":
            c.update(mp="many", api="main")
        elif how == "chunks":
            c.update(chunksizes="big", api="main")
        elif how == "load-missing":
            c.pop("save", None)
            c["load"] = "out/nothing.nc"
        elif how == "both-params":
            c.update(save="out/new.nc", load="out/params.nc", overwrite=True)
        elif how == "exists":
            if not c.get("save"):
                continue
            c.pop("overwrite", None)
        elif how == "negative":
            c["scales"].insert(rng.randrange(len(c["scales"]) + 1), -rng.choice((1, 3)))
        elif how == "no-scales":
            c["scales"] = None
        c["invalid"] = how
        return c


def c15(rng):
    """what can't be done is refused, before and after something that can"""
    spi_tool = chance(rng, 0.25)
    if spi_tool:
        files, c, _ = any_spi(rng, small=True, plain=True, n_scales=1)
        if chance(rng, 0.6):
            c["save"] = "out/params.nc"
            c["overwrite"] = True
    else:
        index = rng.choice(("spi", "pnp", "pet", "spei", "spei", "spei", "scaled"))
        files, c, _ = any_pci(rng, small=chance(rng, 0.6), plain=True, index=index, gridtype=rng.choice(("grid", "grid", "divisions")), n_scales=1)
    history = []
    if chance(rng, 0.6) or spi_tool:
        history.append(c)
        if c.get("save") and chance(rng, 0.6):
            # the parameters of other places
            f, what = misfit(rng, files[c["precip"][0]], ["half", "lon", "lon", "shape", "odd", "flip", "fliplon"])
            files["in/elsewhere.nc"] = f
            load = dict(c, base="out/elsewhere", load=c["save"], precip=["in/elsewhere.nc", c["precip"][1]])
            load.pop("save")
            load.pop("overwrite", None)
            history.append(load)
    bad = None
    for _ in range(rng.choice((1, 1, 2))):
        bad = refused(rng, files, c)
        if chance(rng, 0.3):
            bad["base"] = "out/w"
        history.append(bad)
    if chance(rng, 0.4):
        history.append(rerun(c))
    if chance(rng, 0.5):
        return case(files, [step(rng, [node(rng, history)])])
    return case(files, [step(rng, [node(rng, [h], pid=100 + i)]) for i, h in enumerate(history)])


def c16(rng):
    """how many workers there are, with few and many processors"""
    history, files = [], {}
    for i in range(rng.choice((1, 2, 2, 3))):
        if chance(rng, 0.3):
            f, c, _ = any_spi(rng, f"out/c{i}", plain=True, prefix=f"in/{i}_", n_scales=1)
            if chance(rng, 0.3):
                c["save"] = f"out/params{i}.nc"
        else:
            f, c, _ = any_pci(rng, f"out/c{i}", plain=True, prefix=f"in/{i}_", n_scales=1, gridtype=rng.choice(("grid", "grid", "grid", "divisions", "timeseries")))
        c["mp"] = rng.choice(("single", "single", "all", "all_but_one", None))
        files.update(f)
        history.append(c)
    return case(files, [step(rng, [node(rng, history, cpus=rng.choice((1, 2, 2, 3, 3, 4, 5)))])], count_workers=True)


def c17(rng):
    """the same commands again and again"""
    files, cycle = {}, []
    for i in range(rng.choice((1, 1, 1, 2))):
        prefix = f"in/{i}_"
        if chance(rng, 0.45):
            f, c, _ = any_spi(rng, f"out/c{i}", plain=True, prefix=prefix, n_scales=1)
            if chance(rng, 0.6):
                c["save"] = f"out/params{i}.nc"
                c["overwrite"] = True
        else:
            f, c, _ = any_pci(rng, f"out/c{i}", plain=True, prefix=prefix, n_scales=1, gridtype=rng.choice(("grid", "grid", "divisions", "timeseries")))
        files.update(f)
        cycle.append(c)
    if chance(rng, 0.25):
        r = refused(rng, files, dict(cycle[-1], base="out/refused"))
        if r:
            cycle.append(r)
    if chance(rng, 0.5) and cycle[0].get("save"):
        load = dict(cycle[0], base="out/loading", load=cycle[0]["save"])
        load.pop("save")
        load.pop("overwrite", None)
        if chance(rng, 0.5):
            cycle.append(load)
        if load is not cycle[-1] or chance(rng, 0.3):
            # parameters which don't suit
            load = dict(load, base="out/unsuitable")
            if chance(rng, 0.6):
                load["scales"] = load["scales"] + [next(x for x in SCALES if x not in load["scales"])]
            else:
                f, _ = misfit(rng, files[load["precip"][0]], ["half", "lon", "shape", "odd", "flip"])
                files["in/elsewhere.nc"] = f
                load["precip"] = ["in/elsewhere.nc", load["precip"][1]]
            cycle.append(load)
    history = []
    for k in range(rng.choice((3, 3, 3, 4))):
        for c in cycle:
            # other names of outputs don't make a difference, but keys of a cache do
            history.append(dict(c, base=f"{c['base']}_{k}") if k and chance(rng, 0.3) else dict(c))
    n = node(rng, history)
    n["resources"] = True
    return case(files, [step(rng, [n])], repeats=len(cycle))


STALE = ("", "CDF", "CDF\x01" + "\0" * 100, "\x89HDF\r\n", "no NetCDF at all")


def c18(rng):
    """there's something in the directory of outputs"""
    if chance(rng, 0.35):
        files, c, t = any_spi(rng, small=True, n_scales=rng.choice((1, 1, 2)))
        if chance(rng, 0.5):
            c["save"] = "out/params.nc"
            c["overwrite"] = True
    else:
        index = rng.choice(("spi", "pnp", "pet", "pet", "spei", "spei", "scaled"))
        files, c, t = any_pci(rng, small=True, index=index, n_scales=1, gridtype=rng.choice(("grid",) * 4 + ("divisions", "timeseries")))
    pid = 100
    names = [name for name, _ in workload.expected_outputs(c, files)]
    stale = {}
    steps = []
    if chance(rng, 0.5):
        # incomplete or otherwise useless files of these names
        for name in rng.sample(names, rng.randint(1, min(3, len(names)))):
            stale[name] = rng.choice(STALE)
    if chance(rng, 0.4):
        # what a process with the same or another id has left when it crashed
        for name in rng.sample(names, rng.randint(1, min(2, len(names)))):
            stale[f"{name}.{rng.choice((pid, pid, 77))}.tmp"] = rng.choice(STALE)
    if chance(rng, 0.75):
        # outputs of other inputs, or of another command with this base
        for i in range(rng.choice((1, 1, 2))):
            old = editions(rng, files, c)
            before = dict(c)
            before.pop("share", None)
            if c["tool"] == "pci" and chance(rng, 0.3):
                before["index"] = rng.choice({"spei": ("spei", "pet", "spi"), "scaled": ("spi", "pet", "spei"), "pet": ("pet",)}.get(c["index"], (c["index"],)))
                if before["index"] == "pet" and not before.get("temp"):
                    before["index"] = c["index"]
                if before["index"] in ("pet", "spi"):
                    for k in ("pet",) + (("precip", "scales") if before["index"] == "pet" else ("temp",)):
                        before.pop(k, None)
            if before.get("scales") and chance(rng, 0.3):
                before["scales"] = scales(rng, 1, t)
            puts = [{"tool": "put", "name": name, "file": files[name]} for name in old]
            files.update(old)
            n = node(rng, [before] + puts, pid=rng.choice((90, pid)))
            steps.insert(0, step(rng, [n]))
    last = [c]
    if chance(rng, 0.2):
        last.append(rerun(c))
    steps.append(step(rng, [node(rng, last, pid=pid)], id="later"))
    same = []
    if chance(rng, 0.4):
        # nothing else is there
        bind = dict(files)
        for s in steps:
            for h in s["nodes"][0]["commands"]:
                if h["tool"] == "put":
                    bind[h["name"]] = h["file"]
        again = dict(rerun(c), base="out/fresh")
        if again.get("save"):
            again["save"] = "out/fresh_params.nc"
        fresh = [name for name, _ in workload.expected_outputs(again, bind)]
        same = [[["later", a], ["fresh", b]] for a, b in zip(names, fresh)]
        steps.append(step(rng, [node(rng, [again], pid=200)], id="fresh"))
    return case(files, steps, same=same, stale=stale, later=len(steps) - 1 - (1 if same else 0))


# ----------------------------------------------------------------------------------------
# faults
# ----------------------------------------------------------------------------------------
EXCS = ("MemoryError", "MemoryError", "RuntimeError", "OSError", "FloatingPointError", "ValueError")


def fault(rng, kinds, counts, cmd=0):
    """one fault at a place that exists, according to the counts of an undisturbed run"""
    kinds = list(kinds)
    rng.shuffle(kinds)
    for k in kinds:
        f = {"k": k, "cmd": cmd}
        if k in ("kill_worker", "worker_exc", "stall_worker"):
            top = counts.get("decisions", 0)
            if top < 1:
                continue
            f["at"] = rng.randint(1, top)
            if k != "stall_worker" and counts.get("tasks") and chance(rng, 0.65):
                # at a statement of a task, rather than where a worker happens to be
                f["task"], lines = rng.choice(counts["tasks"])
                f["at"] = rng.randint(1, max(1, lines))
            if k == "worker_exc":
                f["exc"] = rng.choice(EXCS)
            elif k == "stall_worker":
                f["len"] = rng.randint(5, 60)
            else:
                f["busy"] = chance(rng, 0.8)
        elif k == "fork_fail":
            if not counts.get("forks"):
                continue
            f["at"] = rng.randint(1, counts["forks"])
        elif k == "array_fail":
            if not counts.get("arrays"):
                continue
            f["at"] = rng.randint(1, counts["arrays"])
        elif k in ("parent_exc", "crash_line"):
            f["at"] = rng.randint(1, max(1, counts.get("lines", 1)))
            if k == "parent_exc":
                f["exc"] = rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "MemoryError"))
        elif k == "crash_io":
            if not counts.get("io_all"):
                continue
            f["at"] = rng.randint(1, counts["io_all"])
        elif k == "crash_mut":
            # while something is being written
            if not counts.get("io_mut"):
                continue
            f["at"] = rng.randint(1, counts["io_mut"])
        elif k == "int_wait":
            if not counts.get("decisions"):
                continue
            f["at"] = rng.randint(1, counts["decisions"])
            f["exc"] = rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"))
        elif k == "int_io":
            if not counts.get("io_int"):
                continue
            f["at"] = rng.randint(1, counts["io_int"])
            f["exc"] = rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "MemoryError"))
        elif k == "torn_write":
            if not counts.get("io_write"):
                continue
            f["at"] = rng.randint(1, counts["io_write"])
            f["part"] = rng.choice((0.0, 0.3, 0.9))
        elif k.startswith("io_"):
            if not counts.get(k):
                continue
            f["at"] = rng.randint(1, counts[k])
            if k in ("io_write", "io_create", "io_fsync", "io_rename", "io_close", "io_unlink"):
                f["errno"] = rng.choice({"io_close": ("EIO", "EDQUOT"), "io_fsync": ("EIO", "ENOSPC")}.get(k, ("ENOSPC", "EIO", "EDQUOT", "EACCES")))
                if k in ("io_write", "io_create") and f["errno"] != "EACCES":
                    f["sticky"] = chance(rng, 0.5)
                if k == "io_write":
                    f["part"] = rng.choice((0.0, 0.0, 0.5, 0.99))
            elif k == "io_read":
                f["errno"] = rng.choice(("EIO", "EIO", "ENODATA"))
            else:
                f["errno"] = rng.choice(("EIO", "EMFILE", "ENOENT", "EACCES"))
        else:
            raise ValueError(k)
        return f
    return None


IO_KINDS = ("io_write", "io_write", "io_create", "io_fsync", "io_rename", "io_close", "io_read", "io_open")
