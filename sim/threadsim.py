"""
Threads of one process which call the library's functions on shared arrays.

Real threads, of which one runs at a time: before every statement of climate_indices a thread
may have to hand over to another one, which the seeded chooser picks.  A run's specification:

  {"arrays":  [{"kind", "seed", "years", "period", ...}],     inputs shared by all threads
   "params":  [{"for": gamma|pearson, "n", "seed", "old"}],    fitting parameters, shared too
   "threads": [{"ops": [...], "faults": [...]}],
   "seed", "decisions", "weights"}
"""

import copy
import gc
import hashlib
import json
import random
import threading

import numpy as np

from . import core, seams
from .core import INF, REAL, Chooser
from .node import Inconclusive, in_child

QUANTA = (INF, 1, 2, 3, 5, 9, 17, 40, 120, 600)
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
DISTS = ("gamma", "pearson")


# ----------------------------------------------------------------------------------------
# inputs and operations
# ----------------------------------------------------------------------------------------
def make_array(a):
    rng = np.random.RandomState(a["seed"] & 0x7FFFFFFF)
    per = 366 if a["period"] == "daily" else 12
    n = per * a["years"]
    season = np.sin(2 * np.pi * np.arange(n) / per)
    if a["kind"] == "temp":
        v = 10.0 + 12.0 * season + rng.normal(0, 3.0, n)
    elif a["kind"] == "pet":
        v = np.maximum(1.0, 60.0 + 40.0 * season + rng.normal(0, 9.0, n))
    else:
        v = rng.gamma(1.6, 30.0 if per == 12 else 4.0, n) * (1 + 0.5 * season)
    if a.get("zeros"):
        v[rng.uniform(size=n) < a["zeros"]] = 0.0
    if a.get("neg"):
        v[rng.uniform(size=n) < a["neg"]] *= -0.1
    if a.get("nan"):
        v[rng.uniform(size=n) < a["nan"]] = np.nan
    if a.get("drop"):
        v = v[: n - a["drop"]].copy()
    if a.get("shape") == "2d":
        v = v.reshape(-1, per)
    elif a.get("shape") == "strided":
        wide = np.zeros((v.size, 2))
        wide[:, 0] = v
        v = wide[:, 0]
    return v


def make_params(p):
    rng = np.random.RandomState(p["seed"] & 0x7FFFFFFF)
    n = p["n"]
    if p["for"] == "palmer":
        return {k: rng.uniform(0.3, 0.9, 12) for k in ("alpha", "beta", "gamma", "delta")}
    old = p.get("old")
    if p["for"] == "gamma":
        return {
            "alphas" if old else "alpha": rng.uniform(1.0, 4.0, n),
            "betas" if old else "beta": rng.uniform(20.0, 60.0, n),
        }
    return {
        "probabilities_of_zero" if old else "prob_zero": rng.uniform(0.0, 0.1, n),
        "locs" if old else "loc": rng.uniform(60.0, 120.0, n),
        "scales" if old else "scale": rng.uniform(20.0, 60.0, n),
        "skews" if old else "skew": rng.uniform(0.2, 1.2, n),
    }


def call(op, arrays, params):
    """one call of the library"""
    m = seams.MODULES
    indices, compute, utils, palmer = m["indices"], m["compute"], m["utils"], m["palmer"]
    a = arrays[op["data"]]
    spec = op["spec"]
    period = compute.Periodicity.daily if spec["period"] == "daily" else compute.Periodicity.monthly
    y0 = op.get("year0", 1980)
    cal = op.get("cal", [1980, 1989])
    k = op["op"]
    if k in ("spi", "spei"):
        kw = dict(
            scale=op["scale"],
            distribution=indices.Distribution[op["dist"]],
            data_start_year=y0,
            calibration_year_initial=cal[0],
            calibration_year_final=cal[1],
            periodicity=period,
        )
        if op.get("params") is not None:
            kw["fitting_params"] = params[op["params"]]
        if k == "spi":
            return indices.spi(a, **kw)
        return indices.spei(a, arrays[op["pet"]], **kw)
    if k == "pnp":
        return indices.percentage_of_normal(a, op["scale"], y0, cal[0], cal[1], period)
    if k == "pet":
        return indices.pet(a, op["lat"], y0)
    if k == "pci":
        return indices.pci(a)
    if k == "pdsi":
        return palmer.pdsi(
            a, arrays[op["pet"]], op["awc"], y0, cal[0], cal[1],
            params[op["params"]] if op.get("params") is not None else None,
        )
    if k == "gamma_parameters":
        return compute.gamma_parameters(a, y0, cal[0], cal[1], period)
    if k == "pearson_parameters":
        return compute.pearson_parameters(a, y0, cal[0], cal[1], period)
    if k == "scale_values":
        return compute.scale_values(a, op["scale"], period)
    if k == "sum_to_scale":
        return compute.sum_to_scale(a, op["scale"])
    if k == "to366":
        return utils.transform_to_366day(a, y0, op["years"])
    if k == "from366":
        return utils.transform_to_gregorian(a, y0)
    if k in ("transform_gamma", "transform_pearson"):
        # (these want the names that are used for arguments)
        kw = {}
        if op.get("params") is not None:
            kw = params[op["params"]]
        f = compute.transform_fitted_gamma if k == "transform_gamma" else compute.transform_fitted_pearson
        return f(a, y0, cal[0], cal[1], period, **kw)
    if k == "lmoments":
        return m["lmoments"].fit(a)
    if k == "thornthwaite":
        return m["eto"].eto_thornthwaite(a, op["lat"], y0)
    if k == "days":
        return utils.compute_days(y0, op["n"], op["month"], op["since"])
    if k == "length366":
        return utils.gregorian_length_as_366day(op["n"], y0)
    if k == "counts":
        return utils.count_zeros_and_non_missings(a)
    if k == "reshape":
        # (a view of the values that were given perhaps)
        return np.array(utils.reshape_to_2d(a, 12))
    if k == "valid":
        return float(utils.is_data_valid(a))
    if k == "rmse":
        return utils.rmse(a, arrays[op["pet"]])
    if k == "sign_change":
        return utils.sign_change(a, arrays[op["pet"]])
    raise ValueError(k)


def normal(result):
    """a result as data that can be compared and sent"""
    if isinstance(result, (tuple, list)):
        return [normal(r) for r in result]
    if isinstance(result, dict):
        return {str(k): normal(result[k]) for k in sorted(result, key=str)}
    if result is None:
        return None
    return np.array(result, dtype=float)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return False
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-10, atol=1e-10, equal_nan=True))


def outcome(op, arrays, params):
    try:
        return ["ok", normal(call(op, arrays, params))]
    except Exception as e:
        return ["error", type(e).__name__]


def solo(spec, op):
    """the same call alone in a pristine process"""
    core.set_current(None)
    arrays = {i: make_array(spec["arrays"][i]) for i in {op["data"], op.get("pet", op["data"])}}
    if op.get("fill"):
        arrays[op["data"]] = make_array(dict(spec["arrays"][op["data"]], seed=op["fill"]))
    params = {}
    if op.get("params") is not None:
        params[op["params"]] = make_params(spec["params"][op["params"]])
    return outcome(op, arrays, params)


# ----------------------------------------------------------------------------------------
# the simulated process
# ----------------------------------------------------------------------------------------
class Deadlock(BaseException):
    pass


class ThreadSim(core.Context):
    role = "threads"

    def __init__(self, spec):
        super().__init__(None, None, 100)
        self.spec = spec
        self.disk = None
        self.chooser = Chooser(spec["seed"], spec.get("decisions"))
        self.n = len(spec["threads"])
        self.locks = [REAL_LOCK() for _ in range(self.n)]
        for lock in self.locks:
            lock.acquire()
        self.main_lock = REAL_LOCK()
        self.main_lock.acquire()
        self.alive = set(range(self.n))
        self.blocked = set()
        self.stalled = {}
        self.current = None
        self.op_ticks = 0
        self.op_index = [0] * self.n
        self.events = []
        self.fired = []
        self.results = []
        self.failed = None
        self.switches = 0
        self.in_sim = 0
        self.points = 0

    # before every statement
    def at_line(self):
        self.op_ticks_of[self.current] += 1
        self.points += 1
        if self.points > 5_000_000:
            raise Deadlock("too many steps")
        t = self.spec["threads"][self.current]
        for f in t.get("faults", ()):
            if f["op"] == self.op_index[self.current] and f["at"] == self.op_ticks_of[self.current] and not f.get("used"):
                f["used"] = True
                self.fired.append({k: v for k, v in f.items() if k != "used"})
                self.events.append(("fault", self.current, f["k"], self.where()))
                if f["k"] == "exc":
                    raise core.EXC[f["exc"]](f"injected {f['exc']}")
                self.stalled[self.current] = f["len"]

    def pick(self):
        ready = sorted(self.alive - self.blocked)
        if not ready:
            return None
        for t in list(self.stalled):
            self.stalled[t] -= 1
            if self.stalled[t] <= 0:
                del self.stalled[t]
        awake = [t for t in ready if t not in self.stalled]
        ready = awake or ready
        t = ready[self.chooser.pick(len(ready))]
        self.budget = QUANTA[self.chooser.pick(len(QUANTA), self.spec.get("weights"))]
        return t

    def park(self, why="pre"):
        me = self.current
        t = self.pick()
        if t is None:
            raise Deadlock("every thread waits for a lock")
        if t == me:
            return
        self.switches += 1
        self.events.append(("switch", me, t, self.where()))
        self.current = t
        last = self.last
        self.locks[t].release()
        self.locks[me].acquire()
        self.last = last

    def end_thread(self, me):
        self.alive.discard(me)
        self.blocked.clear()
        t = self.pick()
        if t is None:
            self.main_lock.release()
            return
        self.current = t
        self.locks[t].release()

    def thread(self, me):
        self.locks[me].acquire()
        try:
            for i, op in enumerate(self.spec["threads"][me]["ops"]):
                self.op_index[me] = i
                self.op_ticks_of[me] = 0
                if op.get("fill"):
                    # the caller uses an array of its own for something else
                    content = make_array(dict(self.spec["arrays"][op["data"]], seed=op["fill"]))
                    self.arrays[op["data"]][...] = content
                    self.filled[op["data"]] = op["fill"]
                try:
                    raw = call(op, self.arrays, self.params)
                    self.in_sim = 1
                    out = ["ok", normal(raw)]
                    if op.get("scribble"):
                        scribble(raw)
                except Exception as e:
                    self.in_sim = 1
                    out = ["error", type(e).__name__]
                except (KeyboardInterrupt, SystemExit) as e:
                    self.in_sim = 1
                    out = ["error", type(e).__name__]
                hit = any(f["k"] == "exc" and f["op"] == i and f["thread"] == me for f in self.fired)
                self.results.append([me, i, out, hit, self.op_ticks_of[me]])
                self.events.append(("end", me, i, out[0]))
                self.in_sim = 0
        except BaseException as e:
            self.failed = f"{type(e).__name__}: {e}"
        finally:
            self.in_sim = 0
            self.end_thread(me)

    def run(self):
        self.arrays = [make_array(a) for a in self.spec["arrays"]]
        self.params = [make_params(p) for p in self.spec["params"]]
        self.op_ticks_of = [0] * self.n
        self.filled = {}
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        core.set_current(self)
        t = self.pick()
        self.current = t
        self.locks[t].release()
        self.main_lock.acquire()
        core.set_current(None)


def scribble(result):
    """what the caller may do with an array that it was given as a result"""
    if isinstance(result, (tuple, list)):
        for r in result:
            scribble(r)
    elif isinstance(result, dict):
        for r in result.values():
            scribble(r)
    elif isinstance(result, np.ndarray) and result.flags.writeable and result.dtype.kind == "f":
        result[...] = -999.0


class SimLock:
    """a lock of the code under test; waiting for it is up to the scheduler"""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def me(self):
        c = core.CUR
        return c.current if c is not None and c.role == "threads" else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self.me()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            c = core.CUR
            if c is None or c.role != "threads":
                raise RuntimeError("lock is held forever")
            c.blocked.add(me)
            try:
                c.park("blocked")
            finally:
                c.blocked.discard(me)

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None
        c = core.CUR
        if c is not None and c.role == "threads":
            c.blocked.clear()

    def locked(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install():
    seams.third_party()
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)
    try:
        seams.install(numeric=True)
    finally:
        threading.Lock, threading.RLock = REAL_LOCK, REAL_RLOCK


def simulate(spec):
    """runs in a forked process"""
    threading.stack_size(0)
    gc.disable()
    spec = copy.deepcopy(spec)
    sim = ThreadSim(spec)
    # locks that climate_indices makes while it runs, too
    for m in list(seams.MODULES.values()):
        if "threading" in m.__dict__:
            m.__dict__["threading"] = FakeThreading()
    sim.run()
    fresh = [
        make_array(dict(a, seed=sim.filled[i]) if i in sim.filled else a) for i, a in enumerate(spec["arrays"])
    ]
    changed = [
        f"array {i} ({spec['arrays'][i]['kind']})"
        for i, (a, b) in enumerate(zip(sim.arrays, fresh))
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True)
    ]
    for i, (p, q) in enumerate(zip(sim.params, [make_params(p) for p in spec["params"]])):
        if p.keys() != q.keys() or any(not np.array_equal(p[k], q[k]) for k in q):
            changed.append(f"fitting parameters {i}")
    return {
        "results": sim.results,
        "changed": changed,
        "failed": sim.failed,
        "fired": sim.fired,
        "events": sim.events,
        "log": sim.chooser.log,
        "switches": sim.switches,
        "points": sim.points,
    }


class FakeThreading:
    Lock = staticmethod(lambda: SimLock())
    RLock = staticmethod(lambda: SimLock(True))

    def __getattr__(self, name):
        return getattr(threading, name)


def op_key(spec, op):
    used = {"op": {k: v for k, v in op.items() if k != "scribble"}}
    used["a"] = [spec["arrays"][op["data"]], spec["arrays"][op.get("pet", op["data"])]]
    if op.get("params") is not None:
        used["p"] = spec["params"][op["params"]]
    return hashlib.sha1(json.dumps(used, sort_keys=True).encode()).hexdigest()


class Engine:
    """what the driver needs"""

    name = "threads"
    install = staticmethod(install)

    def __init__(self):
        self.cache = {}

    def start_trial(self):
        self.cache = {}

    def stop(self):
        pass

    def execute(self, spec, scratch, pristine=False):
        t = seams._real_time()
        if pristine:
            self.cache = {}
        stats = {
            "commands": 0, "ok": 0, "error": 0, "crash": 0, "faults": {}, "probes": {}, "events": 0,
            "yield_points": 0, "switches": 0,
        }
        out = {
            "inconclusive": None, "violations": [], "stats": stats, "trace": "", "inter": "",
            "recorded": None, "command_counts": [], "bad_image": None, "wall": 0,
        }
        try:
            r = in_child(simulate, spec, deadline=100)
            for th in spec["threads"]:
                for op in th["ops"]:
                    key = op_key(spec, op)
                    if key not in self.cache:
                        self.cache[key] = in_child(solo, spec, op)
        except Inconclusive as e:
            out["inconclusive"] = str(e)
            return out
        out["recorded"] = r["log"]
        out["command_counts"] = [[me, i, n] for me, i, _, _, n in r["results"]]
        bad = out["violations"]
        if r["failed"]:
            bad.append({"kind": "hang", "text": r["failed"]})
        for me, i, got, hit, _ in r["results"]:
            op = spec["threads"][me]["ops"][i]
            want = self.cache[op_key(spec, op)]
            stats["commands"] += 1
            stats["ok" if got[0] == "ok" else "error"] += 1
            if op.get("params") is not None:
                probe(stats, "shared_fitting_parameters")
            if hit and got[0] == "error":
                probe(stats, "call_failed_by_fault")
                continue
            what = f"thread {me}, call {i} ({op['op']})"
            if got[0] == "error" and want[0] == "ok":
                bad.append({"kind": "failure", "text": f"{what} raised {got[1]}, alone it doesn't"})
            elif got[0] == "ok" and want[0] == "error":
                bad.append({"kind": "not-rejected", "text": f"{what} succeeded, alone it raises {want[1]}"})
            elif got[0] == "ok" and not same(got[1], want[1]):
                bad.append({"kind": "wrong-result", "text": f"{what} gives another result than alone in a fresh process"})
        if r["changed"]:
            bad.append({"kind": "input-modified", "text": f"{', '.join(r['changed'])} modified by the library"})
        for f in r["fired"]:
            k = f["k"] + (":" + f["exc"] if "exc" in f else "")
            stats["faults"][k] = stats["faults"].get(k, 0) + 1
        stats["events"] = len(r["events"])
        stats["switches"] = r["switches"]
        stats["yield_points"] = r["points"]
        digest = [[me, i, got[0], digest_of(got[1])] for me, i, got, _, _ in r["results"]]
        out["inter"] = hashlib.sha256(json.dumps([e for e in r["events"]]).encode()).hexdigest()
        out["trace"] = hashlib.sha256(json.dumps([r["events"], r["log"], digest]).encode()).hexdigest()
        out["wall"] = seams._real_time() - t
        return out

    # the search
    def specs(self, pid, seed, trial):
        rng = random.Random(f"{pid}/{seed}/{trial}")
        spec = generate(rng)
        r = yield spec
        if not r or r["inconclusive"]:
            return
        for _ in range(4):
            s = copy.deepcopy(spec)
            s["seed"] = rng.randrange(1 << 30)
            w = rng.choice(WEIGHTS)
            s["weights"] = list(w) if w else None
            if rng.random() < 0.5 and r["command_counts"]:
                for _ in range(rng.randint(1, 2)):
                    me, i, n = rng.choice(r["command_counts"])
                    if n:
                        f = {"thread": me, "op": i, "at": rng.randint(1, n)}
                        if rng.random() < 0.75:
                            f.update(k="exc", exc=rng.choice(("MemoryError", "KeyboardInterrupt", "FloatingPointError")))
                        else:
                            f.update(k="stall", len=rng.randint(2, 50))
                        s["threads"][me].setdefault("faults", []).append(f)
            yield s

    def freeze(self, spec, result):
        spec = copy.deepcopy(spec)
        if result.get("recorded") is not None:
            spec["decisions"] = result["recorded"]
        return spec

    @staticmethod
    def size(spec):
        s = 0
        for a in spec["arrays"]:
            s += 10 + 3 * a["years"] + 2 * sum(1 for k in ("zeros", "neg", "nan", "drop", "shape") if a.get(k))
        for t in spec["threads"]:
            s += 300 + 60 * len(t.get("faults", ())) + sum(100 + bool(o.get("scribble")) + o.get("scale", 0) for o in t["ops"])
        d = spec.get("decisions")
        s += 5000 if d is None else sum(1 for x in d if x) + len(d) // 10
        return s

    @classmethod
    def candidates(cls, spec):
        out = []

        def new():
            c = copy.deepcopy(spec)
            out.append(c)
            return c

        for i, t in enumerate(spec["threads"]):
            if len(spec["threads"]) > 1:
                c = new()
                del c["threads"][i]
                for n, th in enumerate(c["threads"]):
                    for f in th.get("faults", ()):
                        f["thread"] = n
            for j in reversed(range(len(t["ops"]))):
                if len(t["ops"]) > 1:
                    m = new()["threads"][i]
                    del m["ops"][j]
                    m["faults"] = [
                        dict(f, op=f["op"] - 1 if f["op"] > j else f["op"]) for f in m.get("faults", ()) if f["op"] != j
                    ]
            for j in range(len(t.get("faults", ()))):
                del new()["threads"][i]["faults"][j]
            for j, o in enumerate(t["ops"]):
                if o.get("scribble"):
                    new()["threads"][i]["ops"][j]["scribble"] = False
                if o.get("scale", 0) > 1:
                    new()["threads"][i]["ops"][j]["scale"] = 1
                if o.get("params") is not None:
                    new()["threads"][i]["ops"][j]["params"] = None
        d = spec.get("decisions")
        if d:
            new()["decisions"] = []
            for part in (len(d) // 2, len(d) * 3 // 4, len(d) - 1):
                new()["decisions"] = d[:part]
        for k in ("zeros", "neg", "nan", "shape"):
            c = new()
            for a in c["arrays"]:
                a.pop(k, None)
        used = {o[k] for t in spec["threads"] for o in t["ops"] for k in ("data", "pet") if k in o}
        if used and max(used) + 1 < len(spec["arrays"]):
            c = new()
            del c["arrays"][max(used) + 1 :]
        return [c for c in out if cls.size(c) < cls.size(spec)]


def digest_of(x):
    if isinstance(x, list):
        return [digest_of(i) for i in x]
    if isinstance(x, dict):
        return {k: digest_of(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return hashlib.sha1(np.round(x, 9).tobytes()).hexdigest()[:10]
    return x


def probe(stats, name):
    stats["probes"][name] = stats["probes"].get(name, 0) + 1


# ----------------------------------------------------------------------------------------
# generation
# ----------------------------------------------------------------------------------------
WEIGHTS = (
    None,
    (0, 6, 4, 3, 2, 1, 1, 1, 1, 1),
    (0, 0, 0, 1, 2, 4, 4, 4, 2, 1),
    (0, 0, 0, 0, 0, 0, 1, 3, 5, 4),
)


def generate(rng):
    arrays, params = [], []
    years = rng.choice((6, 8, 10, 12))
    for kind in ("precip", "pet", "temp", "precip"):
        a = {"kind": kind, "seed": rng.randrange(1 << 30), "years": years, "period": "monthly"}
        if kind == "precip":
            if rng.random() < 0.5:
                a["zeros"] = rng.choice((0.1, 0.4))
            if rng.random() < 0.3:
                a["neg"] = 0.05
        if rng.random() < 0.25:
            a["nan"] = 0.05
        if rng.random() < 0.3:
            a["shape"] = "2d" if rng.random() < 0.7 else "strided"
        arrays.append(a)
    for kind in ("precip", "precip"):
        arrays.append({"kind": kind, "seed": rng.randrange(1 << 30), "years": 2 if len(arrays) == 4 else 1, "period": "daily"})
    if rng.random() < 0.5:
        arrays[4]["zeros"] = 0.3
    for dist in DISTS:
        params.append({"for": dist, "n": 12, "seed": rng.randrange(1 << 30)})
    params.append({"for": DISTS[0], "n": 12, "seed": rng.randrange(1 << 30), "old": True})
    params.append({"for": DISTS[1], "n": 12, "seed": rng.randrange(1 << 30), "old": True})
    params.append({"for": "palmer", "n": 12, "seed": rng.randrange(1 << 30)})

    # a swarm: few kinds of calls in each run, so that threads do the same thing often
    kinds = rng.sample(
        ("spi", "spi", "spei", "spei", "pnp", "pet", "pet", "pci", "pdsi", "gamma_parameters", "pearson_parameters",
         "scale_values", "to366", "from366", "daily", "daily", "transform_gamma", "transform_pearson", "lmoments",
         "thornthwaite", "tools"),
        rng.randint(1, 4),
    )
    threads = []
    for _ in range(rng.choice((1, 2, 2, 2, 3, 3, 4))):
        ops = [operation(rng, arrays, params, kinds) for _ in range(rng.randint(1, 4))]
        threads.append({"ops": ops})
        if rng.random() < 0.4:
            # this thread has an array of its own, whose content it replaces between calls
            own = {}
            for o in ops:
                if o["op"] in ("spi", "spei", "pet", "gamma_parameters", "pearson_parameters") and o["data"] != 4:
                    if o["data"] not in own:
                        own[o["data"]] = len(arrays)
                        a = dict(arrays[o["data"]])
                        if a.get("shape") == "2d":
                            a.pop("shape")
                        arrays.append(a)
                    o["data"] = own[o["data"]]
                    o["fill"] = rng.randrange(1, 1 << 30)
                    if rng.random() < 0.5:
                        # exactly the same call, but for the content
                        o2 = dict(o, fill=rng.randrange(1, 1 << 30))
                        ops.insert(ops.index(o) + 1, o2)
                        break
    return {
        "arrays": arrays,
        "params": params,
        "threads": threads,
        "seed": rng.randrange(1 << 30),
        "weights": list(rng.choice(WEIGHTS[1:])),
    }


def operation(rng, arrays, params, kinds):
    k = rng.choice(kinds)
    data = rng.choice((0, 0, 3))
    years = arrays[0]["years"]
    y0 = rng.choice((1980, 1980, 1979))
    n = rng.randint(max(4, years - 4), years)
    first = rng.randint(0, years - n)
    cal = [y0 + first, y0 + first + n - 1]
    if rng.random() < 0.15:
        cal = [y0 - 3, y0 + years + 2]
    o = {"op": k, "data": data, "year0": y0, "cal": cal}
    if k in ("spi", "spei"):
        o["scale"] = rng.choice((1, 1, 2, 3, 6))
        o["dist"] = rng.choice(DISTS)
        if rng.random() < 0.4:
            if k == "spei":
                o["params"] = rng.choice((0, 2)) if o["dist"] == "gamma" else rng.choice((1, 3))
            else:
                o["params"] = 0 if o["dist"] == "gamma" else 1
        if k == "spei":
            o["pet"] = 1
        o["scribble"] = rng.random() < 0.6
    elif k == "pnp":
        o["scale"] = rng.choice((1, 2, 3, 6))
        o["cal"] = [y0, y0 + years - 1] if rng.random() < 0.8 else [y0 - 1, y0 + 3]
        if arrays[data].get("shape") == "2d":
            o["data"] = data = 0 if not arrays[0].get("shape") == "2d" else 5
        o["scribble"] = rng.random() < 0.6
    elif k == "pet":
        o["data"] = 2
        # (a fine grid's latitudes are close to one another)
        o["lat"] = rng.choice((0.0, 25.0, 40.0, 60.0, -33.0, -50.0, 95.0, 60.001, 60.004, 60.02, 60.1, 60.3, 40.0005, -60.0, 60.0 + 1e-9))
        o["scribble"] = rng.random() < 0.6
    elif k == "pci":
        o["data"] = 5
    elif k == "pdsi":
        o["pet"] = 1
        o["awc"] = rng.choice((2.0, 4.5, 8.0))
        o["cal"] = [y0, y0 + years - 1]
        if rng.random() < 0.4:
            o["params"] = 4
        o["scribble"] = rng.random() < 0.5
    elif k in ("gamma_parameters", "pearson_parameters"):
        o["scribble"] = rng.random() < 0.5
    elif k in ("transform_gamma", "transform_pearson"):
        o["scribble"] = rng.random() < 0.5
        if rng.random() < 0.5:
            o["params"] = 2 if k == "transform_gamma" else 3
    elif k == "lmoments":
        if arrays[data].get("shape") == "2d" or arrays[data].get("nan"):
            o["data"] = 5
        o["scribble"] = rng.random() < 0.5
    elif k == "thornthwaite":
        o["data"] = 2
        o["lat"] = rng.choice((0.0, 40.0, 40.0005, -60.0, 60.0, 60.004))
        o["scribble"] = rng.random() < 0.5
    elif k == "tools":
        o["op"] = rng.choice(("days", "length366", "counts", "reshape", "valid", "rmse", "sign_change"))
        o.update(n=rng.choice((1, 5, 12, 30)), month=rng.choice((1, 1, 2, 7, 12)), since=rng.choice((1800, 1800, 1850)))
        if o["op"] == "length366":
            o["n"] = rng.choice((365, 366, 731, 1461, 100))
        if o["op"] in ("rmse", "sign_change"):
            o["data"], o["pet"] = 4, rng.choice((4, 4, 5))
        o["scribble"] = o["op"] not in ("reshape",) and rng.random() < 0.5
    elif k == "scale_values":
        o["scale"] = rng.choice((1, 2, 3, 6))
    elif k == "to366":
        o["data"], o["years"] = 5, 1
    elif k == "from366":
        o["data"] = 4
    elif k == "daily":
        o["op"] = rng.choice(("gamma_parameters", "pearson_parameters", "scale_values", "spi", "pnp"))
        o["data"], o["scale"] = 4, rng.choice((1, 3))
        o["dist"] = rng.choice(DISTS)
        o["cal"] = [y0, y0 + 1]
    o["spec"] = {"period": arrays[o["data"]]["period"]}
    return o
