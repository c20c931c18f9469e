"""
What the simulated commands are given (input files made from a small specification), and
what they have to deliver (computed with the library, one cell at a time, by the oracle).
"""

import hashlib
import json
import os

import numpy as np

from .core import REAL

# ----------------------------------------------------------------------------------------
# input files
# ----------------------------------------------------------------------------------------
# A file specification:
#   grid:   {"type": grid|divisions|timeseries, "nlat", "nlon", "lat0", "dlat", "lon0", "dlon",
#            "ndiv"}
#   time:   {"year0", "years", "drop" (months missing at the end), "period": monthly|daily}
#   vars:   [{"var", "kind": precip|temp|pet|noise, "units", "seed", "nan_cells", "nan_vals",
#             "zeros", "const", "neg", "dry", "gaps", "late"}]
#   fmt: nc3|h5, dims: std|tfirst|lonfirst, dtype: f8|f4, coord: f8|f4
#   cut: the part of the file that's there (the rest has got lost)


def file_id(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


def days_in_years(year0, years):
    return sum(366 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 365 for y in range(year0, year0 + years))


def n_times(time):
    if time["period"] == "daily":
        return days_in_years(time["year0"], time["years"])
    return 12 * time["years"] - time.get("drop", 0)


def coordinates(spec):
    g = spec["grid"]
    dtype = np.float32 if spec.get("coord") == "f4" else np.float64
    if g["type"] == "grid":
        i = np.arange(g["nlat"])
        # (the distances may vary)
        lat = (g["lat0"] + g["dlat"] * (i + g.get("bend", 0.0) * (i % 3 == 1))).astype(dtype)
        lon = (g["lon0"] + g["dlon"] * np.arange(g["nlon"])).astype(dtype)
        if g.get("odd"):
            # one of the coordinates isn't where it should be
            lat[len(lat) // 2] += g["odd"] * abs(g["dlat"])
        if g.get("flip"):
            lat, lon = (lat[::-1], lon) if g["flip"] == "lat" else (lat, lon[::-1])
        return {"lat": lat, "lon": lon}
    if g["type"] == "divisions":
        ids = np.arange(101, 101 + g["ndiv"], dtype=np.int32)
        if g.get("flip"):
            ids = np.roll(ids, 1)
        return {"division": ids + g.get("odd", 0)}
    return {}


def same_cells(a, b):
    """are these files about the same places?"""
    x, y = coordinates(a), coordinates(b)
    return sorted(x) == sorted(y) and all(
        x[k].shape == y[k].shape and np.allclose(x[k], y[k], rtol=0, atol=1e-3) for k in x
    )


def cell_shape(grid):
    if grid["type"] == "grid":
        return (grid["nlat"], grid["nlon"])
    if grid["type"] == "divisions":
        return (grid["ndiv"],)
    return ()


def cell_dims(grid):
    return {"grid": ("lat", "lon"), "divisions": ("division",), "timeseries": ()}[grid["type"]]


def make_values(spec, v):
    """the values of a variable, with dimensions in the order (lat, lon, time)"""
    cells = cell_shape(spec["grid"])
    n = n_times(spec["time"])
    rng = np.random.RandomState(v["seed"] & 0x7FFFFFFF)
    shape = cells + (n,)
    per = 365.25 if spec["time"]["period"] == "daily" else 12.0
    season = np.sin(2 * np.pi * (np.arange(n) / per))
    site = rng.uniform(0.5, 1.5, size=cells + (1,)) if cells else np.ones((1,))
    if v["kind"] == "temp":
        values = 12.0 * site + 11.0 * season + rng.normal(0, 3.0, size=shape)
    elif v["kind"] == "pet":
        values = np.maximum(2.0, 60.0 * site + 40.0 * season + rng.normal(0, 10.0, size=shape))
    else:
        scale = 30.0 if per == 12.0 else 4.0
        values = rng.gamma(1.7, scale, size=shape) * site * (1.0 + 0.5 * season) + 0.01
    if v.get("zeros"):
        values[rng.uniform(size=shape) < v["zeros"]] = 0.0
    if v.get("const") and cells:
        values[rng.uniform(size=cells) < v["const"]] = 0.0
    if v.get("neg"):
        values[rng.uniform(size=shape) < v["neg"]] *= -0.1
    if v.get("nan_vals"):
        values[rng.uniform(size=shape) < v["nan_vals"]] = np.nan
    if v.get("nan_cells") and cells:
        values[rng.uniform(size=cells) < v["nan_cells"]] = np.nan
    p = int(round(per))
    if v.get("dry") and cells:
        # some months are without precipitation in all years, or in all but the last ones
        where = rng.uniform(size=cells) < v["dry"]
        for i in range(n - p * v.get("wet_years", v["seed"] % 4)):
            if (i % p) * 12 // p in (5, 6, 7, 8):
                values[where, i] = 0.0
    if v.get("few") and cells:
        # in some calendar months there are just so many values
        where = rng.uniform(size=cells) < 0.4
        for i in range(n):
            if i % p * 12 // p in (2, 3, 9) and i // p not in range(v["seed"] % 3, v["seed"] % 3 + v["few"]):
                values[where, i] = np.nan if v["seed"] % 2 else 0.0
    if v.get("tweak"):
        k = v["seed"] % values.size
        if v["tweak"] == "one":
            values.reshape(-1)[k] *= 1.01
        elif v["tweak"] == "last":
            values[..., -1] *= 1.004
        else:
            # (not all by the same factor, most indices don't depend on that)
            size = {"all": 5e-4, "bit": 1e-6}[v["tweak"]]
            values *= 1.0 + size * np.sin(1.0 + np.arange(values.size)).reshape(values.shape)
    if v.get("gaps") and cells:
        # every other value is missing
        values[rng.uniform(size=cells) < v["gaps"], 1::2] = np.nan
    if v.get("late") and cells:
        # the record begins late, or ends early
        where = rng.uniform(size=cells) < v["late"]
        if v["seed"] % 2:
            values[where, : n // 3] = np.nan
        else:
            values[where, -(n // 3) :] = np.nan
    u = v["units"].lower()
    if u in ("inches", "inch"):
        values = values / 25.4
    elif u in ("f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit"):
        values = values * 1.8 + 32.0
    elif u in ("k", "kelvin"):
        values = values + 273.15
    if spec.get("packed"):
        from xarray import Variable, conventions

        var = Variable(("x",), values.reshape(-1), {}, packing(v))
        values = conventions.decode_cf_variable("x", conventions.encode_cf_variable(var)).values.reshape(values.shape)
    return values.astype(np.float32 if spec.get("dtype") == "f4" else np.float64)


def packing(v):
    """values stored as short integers"""
    return {"dtype": "i2", "scale_factor": 0.01 if v["kind"] == "temp" else 0.05, "_FillValue": -32768}


def times_of(spec):
    import pandas as pd

    t = spec["time"]
    n = n_times(t)
    freq = "D" if t["period"] == "daily" else "MS"
    times = pd.date_range(f"{t['year0']}-{1 + t.get('shift', 0):02d}-01", periods=n + ("gap" in t), freq=freq)
    if "gap" in t:
        times = times.delete(t["gap"] % n)
    return times


def make_dataset(spec):
    import xarray as xr

    g = spec["grid"]
    times = times_of(spec)
    coords = {}
    c = coordinates(spec)
    for name, values in c.items():
        attrs = {"lat": {"units": "degrees_north"}, "lon": {"units": "degrees_east"}}.get(name, {})
        coords[name] = xr.Variable((name,), values, attrs)
    coords["time"] = xr.Variable(("time",), times)
    data = {}
    dims = cell_dims(g) + ("time",)
    for v in spec["vars"]:
        values = make_values(spec, v)
        d = dims
        if spec.get("dims") == "tfirst" and len(dims) > 1:
            values = np.moveaxis(values, -1, 0)
            d = ("time",) + dims[:-1]
        if spec.get("dims") == "lonfirst":
            values = np.moveaxis(values, 0, 1)
            d = (dims[1], dims[0]) + dims[2:]
        var = xr.Variable(d, np.ascontiguousarray(values), {"units": v["units"], "long_name": v["var"]})
        if spec.get("packed"):
            var.encoding.update(packing(v))
        if spec.get("fmt") == "h5" and spec.get("h5chunks"):
            var.encoding["chunksizes"] = tuple(max(1, s // spec["h5chunks"]) for s in values.shape)
        data[v["var"]] = var
    if g["type"] == "divisions":
        data["lat"] = xr.Variable(("division",), division_lats(spec), {"units": "degrees_north"})
    extra = spec.get("extra")
    if extra in ("bounds", "all"):
        # (what data sets commonly have besides)
        data["time_bnds"] = xr.Variable(("time", "nv"), np.stack([times.values, times.values], axis=1))
        coords["time"].attrs["bounds"] = "time_bnds"
    if extra in ("crs", "all"):
        data["crs"] = xr.Variable((), np.int32(1), {"grid_mapping_name": "latitude_longitude"})
    if extra in ("height", "all"):
        coords["height"] = xr.Variable((), 2.0, {"units": "m"})
    ds = xr.Dataset(data, coords=coords, attrs={"title": "input " + ", ".join(v["var"] for v in spec["vars"]), "source": file_id(spec)})
    ds["time"].encoding.update(units=spec.get("tunits", "days since 1850-01-01"), calendar="standard", dtype="f8")
    return ds


def division_lats(spec):
    g = spec["grid"]
    return g.get("lat0", 25.0) + 3.0 * np.arange(g["ndiv"])


_bytes_cache = {}


def file_bytes(spec, tmpdir):
    """the contents of an input file"""
    fid = file_id(spec)
    if fid not in _bytes_cache:
        ds = make_dataset(spec)
        path = os.path.join(tmpdir, f"make-{fid}-{REAL['getpid']()}.nc")
        if spec.get("fmt") == "h5":
            ds.to_netcdf(path, engine="h5netcdf")
        else:
            ds.to_netcdf(path, engine="scipy")
        with REAL["open"](path, "rb") as f:
            _bytes_cache[fid] = f.read()
        if spec.get("cut"):
            _bytes_cache[fid] = _bytes_cache[fid][: int(spec["cut"] * len(_bytes_cache[fid]))]
        REAL["unlink"](path)
        if len(_bytes_cache) > 40:
            _bytes_cache.pop(next(iter(_bytes_cache)))
    return _bytes_cache[fid]


def var_of(spec, kind):
    for v in spec["vars"]:
        if v["kind"] == kind:
            return v
    return None


def in_standard_units(spec, v):
    """values as double, in millimeters or degrees Celsius"""
    import scipy.constants

    values = make_values(spec, v)
    u = v["units"].lower()
    if u in ("inches", "inch"):
        values = values * 25.4
    elif u in ("f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit"):
        values = scipy.constants.convert_temperature(values, "f", "c")
    elif u in ("k", "kelvin"):
        values = scipy.constants.convert_temperature(values, "k", "c")
    return values.astype(np.float64)


# ----------------------------------------------------------------------------------------
# commands
# ----------------------------------------------------------------------------------------
def spelled(c, name):
    """the path by which a command refers to a file; there are several for each"""
    how = c.get("spell")
    if not how or name is None:
        return name
    head, _, tail = name.partition("/")
    return {
        "dot": f"./{name}",
        "up": f"{head}/../{name}",
        "double": f"{head}//{tail}",
        "abs": os.path.join(os.getcwd(), name),
        "link": f"lnk_{head}/{tail}",
        "link_abs": os.path.join(os.getcwd(), f"lnk_{head}/{tail}"),
    }[how]


def pci_argv(c):
    out = ["--index", c["index"], "--periodicity", c["period"], "--output_file_base", spelled(c, c["base"])]
    if c.get("scales") is not None:
        out += ["--scales"] + [str(s) for s in c["scales"]]
    if c.get("cal"):
        out += ["--calibration_start_year", str(c["cal"][0]), "--calibration_end_year", str(c["cal"][1])]
    for kind in ("precip", "temp", "pet", "awc"):
        if c.get(kind):
            out += [f"--netcdf_{kind}", spelled(c, c[kind][0])]
            if c[kind][1] is not None:
                out += [f"--var_name_{kind}", c[kind][1]]
    if c.get("mp"):
        out += ["--multiprocessing", c["mp"]]
    if c.get("chunksizes"):
        out += ["--chunksizes", c["chunksizes"]]
    return out


def spi_argv(c):
    out = ["--periodicity", c["period"], "--output_file_base", spelled(c, c["base"])]
    if c.get("scales") is not None:
        out += ["--scales"] + [str(s) for s in c["scales"]]
    if c.get("cal"):
        out += ["--calibration_start_year", str(c["cal"][0]), "--calibration_end_year", str(c["cal"][1])]
    if c.get("precip"):
        out += ["--netcdf_precip", spelled(c, c["precip"][0])]
        if c["precip"][1] is not None:
            out += ["--var_name_precip", c["precip"][1]]
    if c.get("mp"):
        out += ["--multiprocessing", c["mp"]]
    if c.get("save"):
        out += ["--save_params", spelled(c, c["save"])]
    if c.get("load"):
        out += ["--load_params", spelled(c, c["load"])]
    if c.get("overwrite"):
        out += ["--overwrite"]
    return out


def pci_namespace(c, compute):
    import argparse

    ns = argparse.Namespace(
        index=c["index"],
        periodicity=compute.Periodicity.from_string(c["period"]),
        scales=None if c.get("scales") is None else list(c["scales"]),
        calibration_start_year=c["cal"][0] if c.get("cal") else None,
        calibration_end_year=c["cal"][1] if c.get("cal") else None,
        output_file_base=spelled(c, c["base"]),
        multiprocessing=c.get("mp") or "all_but_one",
        chunksizes=c.get("chunksizes") or "none",
    )
    for kind in ("precip", "temp", "pet", "awc"):
        setattr(ns, f"netcdf_{kind}", spelled(c, c[kind][0]) if c.get(kind) else None)
        setattr(ns, f"var_name_{kind}", c[kind][1] if c.get(kind) else None)
    return ns


def unit(period):
    return "day" if period == "daily" else "month"


DISTS = ("gamma", "pearson")


def expected_outputs(c, bind, params_of=None, pet_of=None):
    """
    The files which a command has to write, in no particular order.

    :param bind: input file name -> file specification, at the time of the command
    :param params_of: for a command that loads fitting parameters, the key of these
    :param pet_of: for a command that's given the PET file which another one has written, the
        key of this
    :return: list of (path, key), where the key says what the file contains
    """
    out = []
    if c["tool"] == "put":
        return out
    period = c["period"]

    def src(kind):
        name, var = c[kind]
        return [bind[name], var]

    if c["tool"] == "spi":
        for s in c["scales"]:
            for d in DISTS:
                name = f"spi_{d}_{s}_{unit(period)}"
                key = {
                    "k": "spi",
                    "var": name,
                    "src": src("precip"),
                    "scale": s,
                    "dist": d,
                    "cal": c["cal"],
                    "period": period,
                }
                if c.get("load"):
                    key["params"] = params_of
                    if params_of is None:
                        raise ValueError("unknown fitting parameters")
                out.append((f"{c['base']}_{name}.nc", key))
        if c.get("save"):
            out.append((c["save"], params_key(c, bind)))
        return out

    scales = c.get("scales") or []
    if c["index"] in ("spi", "scaled"):
        for s in scales:
            for d in DISTS:
                name = f"spi_{d}_{str(s).zfill(2)}"
                out.append(
                    (
                        f"{c['base']}_{name}.nc",
                        {
                            "k": "spi",
                            "var": name,
                            "src": src("precip"),
                            "scale": s,
                            "dist": d,
                            "cal": c["cal"],
                            "period": period,
                        },
                    )
                )
    if c["index"] in ("pet", "spei", "scaled") and not c.get("pet"):
        out.append((f"{c['base']}_pet_thornthwaite.nc", {"k": "pet", "var": "pet_thornthwaite", "src": src("temp")}))
    if c["index"] in ("spei", "scaled"):
        for s in scales:
            for d in DISTS:
                name = f"spei_{d}_{str(s).zfill(2)}"
                out.append(
                    (
                        f"{c['base']}_{name}.nc",
                        {
                            "k": "spei",
                            "var": name,
                            "src": src("precip"),
                            "petsrc": src("pet") if c.get("pet") and not pet_of else None,
                            "tempsrc": pet_of["src"] if pet_of else None if c.get("pet") else src("temp"),
                            "scale": s,
                            "dist": d,
                            "cal": c["cal"],
                            "period": period,
                        },
                    )
                )
    if c["index"] in ("pnp", "scaled"):
        for s in scales:
            name = f"pnp_{str(s).zfill(2)}"
            out.append(
                (
                    f"{c['base']}_{name}.nc",
                    {
                        "k": "pnp",
                        "var": name,
                        "src": src("precip"),
                        "scale": s,
                        "cal": c["cal"],
                        "period": period,
                    },
                )
            )
    return out


def params_key(c, bind):
    return {
        "k": "params",
        "src": [bind[c["precip"][0]], c["precip"][1]],
        "scales": list(c["scales"]),
        "cal": c["cal"],
        "period": c["period"],
    }


def key_id(key):
    if key is None:
        return None
    return hashlib.sha1(json.dumps(key, sort_keys=True).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------------------
# the oracle: runs in a process of its own that's forked from a pristine one
# ----------------------------------------------------------------------------------------
def _find(src):
    spec, name = src
    for v in spec["vars"]:
        if v["var"] == name:
            return spec, v
    raise KeyError(name)


def _to366(values, time):
    """one cell of daily values -> years of 366 days (an independent transcription)"""
    out = []
    i = 0
    for y in range(time["year0"], time["year0"] + time["years"]):
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        if leap:
            out.extend(values[i : i + 366])
            i += 366
        else:
            year = list(values[i : i + 365])
            out.extend(year[:59] + [(year[58] + year[59]) / 2] + year[59:])
            i += 365
    return np.array(out, dtype=float)


def _from366(values, time):
    out = []
    for n, y in enumerate(range(time["year0"], time["year0"] + time["years"])):
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        year = list(values[366 * n : 366 * (n + 1)])
        out.extend(year if leap else year[:59] + year[60:])
    return np.array(out, dtype=float)


def evaluate(key, modules):
    """
    :return: {"var": {name: (dims, array)}, "coords": {...}, "time": n} or {"error": text}
    """
    indices, compute = modules["indices"], modules["compute"]
    spec, v = _find(key["src"])
    grid, time = spec["grid"], spec["time"]
    cells = cell_shape(grid)
    n = n_times(time)
    daily = time["period"] == "daily"
    period = compute.Periodicity.daily if daily else compute.Periodicity.monthly
    year0 = time["year0"]
    values = in_standard_units(spec, v)
    where = list(np.ndindex(*cells))
    # in the reverse order of what the commands do, so that state which is wrongly
    # kept from one cell to the next doesn't show up here in the same way
    where.reverse()

    def prep(x):
        return _to366(x, time) if daily else np.array(x, dtype=float)

    def post(x):
        return _from366(x, time) if daily else x

    out = {"coords": {k: np.asarray(c, dtype=float) for k, c in coordinates(spec).items()}, "n": n}
    out["times"] = times_of(spec).values.astype("datetime64[s]").astype("int64").tolist()
    try:
        if key["k"] == "params":
            res = {}
            steps = 366 if daily else 12
            names = ("alpha", "beta", "skew", "loc", "scale", "prob_zero")
            for s in key["scales"]:
                arrays = {p: np.full(cells + (steps,), np.nan) for p in names}
                for w in where:
                    scaled = compute.scale_values(prep(values[w]), s, period)
                    args = (year0, key["cal"][0], key["cal"][1], period)
                    a, b = compute.gamma_parameters(np.array(scaled), *args)
                    p0, loc, scale, skew = compute.pearson_parameters(np.array(scaled), *args)
                    for p, x in zip(names, (a, b, skew, loc, scale, p0)):
                        arrays[p][w] = x
                for p in names:
                    res[f"{p}_{s}_{unit(key['period'])}"] = (cell_dims(grid) + (unit(key["period"]),), arrays[p])
            out["vars"] = res
            return out

        result = np.full(cells + (n,), np.nan)
        pet = None
        fit = None
        if key["k"] == "spei":
            if key["petsrc"]:
                ps, pv = _find(key["petsrc"])
                pet = in_standard_units(ps, pv)
            else:
                pet = evaluate({"k": "pet", "var": "pet_thornthwaite", "src": key["tempsrc"]}, modules)
                if "error" in pet:
                    return pet
                pet = pet["vars"]["pet_thornthwaite"][1]
        if key.get("params"):
            fit = evaluate(key["params"], modules)
            if "error" in fit:
                return fit
            fit = {name: a for name, (_, a) in fit["vars"].items()}
        if key["k"] == "pet":
            if grid["type"] == "grid":
                lats = coordinates(spec)["lat"].astype(float)
            elif grid["type"] == "divisions":
                lats = division_lats(spec)
            else:
                return {"error": "no latitude"}
        for w in where:
            x = prep(values[w])
            if key["k"] in ("spi", "spei"):
                kw = dict(
                    scale=key["scale"],
                    distribution=indices.Distribution[key["dist"]],
                    data_start_year=year0,
                    calibration_year_initial=key["cal"][0],
                    calibration_year_final=key["cal"][1],
                    periodicity=period,
                )
                if fit is not None:
                    suffix = f"_{key['scale']}_{unit(key['period'])}"
                    names = ("alpha", "beta") if key["dist"] == "gamma" else ("prob_zero", "loc", "scale", "skew")
                    kw["fitting_params"] = {p: fit[p + suffix][w].copy() for p in names}
                if key["k"] == "spi":
                    r = indices.spi(x, **kw)
                else:
                    r = indices.spei(x, prep(pet[w]), **kw)
            elif key["k"] == "pnp":
                r = indices.percentage_of_normal(
                    x,
                    scale=key["scale"],
                    data_start_year=year0,
                    calibration_start_year=key["cal"][0],
                    calibration_end_year=key["cal"][1],
                    periodicity=period,
                )
            else:
                r = indices.pet(x, float(lats[w[0]]), year0)
            result[w] = post(np.asarray(r, dtype=float))
        out["vars"] = {key["var"]: (cell_dims(grid) + ("time",), result)}
        return out
    except Exception as e:
        return {"error": f"{type(e).__name__}: {e}"}


# ----------------------------------------------------------------------------------------
# comparison of a file with what's expected
# ----------------------------------------------------------------------------------------
def compare(path, exp, rtol=1e-9, atol=1e-9):
    """returns None if the file is as expected, else what's wrong with it"""
    import xarray as xr

    try:
        with xr.open_dataset(path) as ds:
            ds.load()
    except Exception as e:
        return f"unreadable ({type(e).__name__}: {e})"
    for name, (dims, want) in exp["vars"].items():
        if name not in ds.variables:
            return f"variable {name} is missing (has {sorted(ds.data_vars)})"
        got = ds[name]
        if set(got.dims) != set(dims):
            return f"{name} has dimensions {got.dims} rather than {dims}"
        a = np.asarray(got.transpose(*dims).values, dtype=float)
        if a.shape != want.shape:
            return f"{name} has shape {a.shape} rather than {want.shape}"
        same = np.isclose(a, want, rtol=rtol, atol=atol, equal_nan=True)
        if not same.all():
            bad = np.argwhere(~same)
            i = tuple(bad[0])
            return (
                f"{name} is wrong in {len(bad)} of {same.size} elements, "
                f"first at {dict(zip(dims, (int(k) for k in i)))}: {a[i]!r} rather than {want[i]!r}"
            )
    for name, want in exp["coords"].items():
        if name not in ds.variables:
            return f"coordinate {name} is missing"
        a = np.asarray(ds[name].values, dtype=float)
        if a.shape != want.shape or not np.allclose(a, want, rtol=1e-6, atol=1e-6):
            return f"coordinate {name} is {a.tolist()} rather than {want.tolist()}"
    if any("time" in dims for dims, _ in exp["vars"].values()):
        t = ds["time"].values
        if t.dtype.kind != "M" or t.astype("datetime64[s]").astype("int64").tolist() != exp["times"]:
            return f"the times aren't those of the input: they begin with {t[0]}, and there are {len(t)} of {exp['n']}"
    return None


# ----------------------------------------------------------------------------------------
# comparison of two files
# ----------------------------------------------------------------------------------------
VOLATILE = ("history", "date", "creat", "time_stamp", "timestamp", "uuid")


def _attrs(a):
    return {
        str(k): np.asarray(v).tolist()
        for k, v in a.items()
        if not any(x in str(k).lower() for x in VOLATILE)
    }


def content(path):
    """what a file says, apart from when and by which command it was written"""
    import xarray as xr

    with xr.open_dataset(path, decode_cf=False) as ds:
        ds.load()
        return {
            "attrs": _attrs(ds.attrs),
            "vars": {
                str(name): {"dims": tuple(v.dims), "attrs": _attrs(v.attrs), "values": np.array(v.values)}
                for name, v in ds.variables.items()
            },
        }


def difference(a, b, rtol=1e-9, atol=1e-9):
    """None, or in what the contents of two files differ"""
    if sorted(a["vars"]) != sorted(b["vars"]):
        return f"variables are {sorted(a['vars'])} and {sorted(b['vars'])}"
    if a["attrs"] != b["attrs"]:
        return f"global attributes are {a['attrs']} and {b['attrs']}"
    for name in sorted(a["vars"]):
        x, y = a["vars"][name], b["vars"][name]
        if x["dims"] != y["dims"]:
            return f"dimensions of {name} are {x['dims']} and {y['dims']}"
        if repr(x["attrs"]) != repr(y["attrs"]):
            return f"attributes of {name} are {x['attrs']} and {y['attrs']}"
        u, v = x["values"], y["values"]
        if u.shape != v.shape:
            return f"shapes of {name} are {u.shape} and {v.shape}"
        if u.dtype.kind in "fiu":
            same = np.isclose(u.astype(float), v.astype(float), rtol=rtol, atol=atol, equal_nan=True)
        else:
            same = u == v
        if not np.all(same):
            i = tuple(np.argwhere(~same)[0])
            return f"{name} differs in {int((~same).sum())} of {same.size} elements, first at {i}: {u[i]!r} and {v[i]!r}"
    return None
