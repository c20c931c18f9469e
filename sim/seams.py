"""
Installation of the seams.  Everything is patched before climate_indices is imported, so
that it makes no difference how the code imports what it uses; outside of a simulated
process every patched function just calls the real one.
"""

import builtins
import hashlib
import io
import logging
import multiprocessing
import multiprocessing.context
import multiprocessing.sharedctypes
import multiprocessing.synchronize
import multiprocessing.util
import os
import random
import sys
import time

from . import core, pools
from .core import REAL

SRC = os.environ.get("CLIMATE_INDICES_SRC", "/repo/src")


def node():
    ctx = core.CUR
    return ctx if ctx is not None and ctx.role == "node" else None


def disk():
    ctx = core.CUR
    return ctx.disk if ctx is not None else None


# ---- files
def sim_open(file, mode="r", *args, **kwargs):
    d = disk()
    if d is None:
        return REAL["open"](file, mode, *args, **kwargs)
    if isinstance(file, int):
        return d.fdopen(file, mode, *args, **kwargs)
    return d.open(file, mode, *args, **kwargs)


def _by_descriptor(which, method):
    """functions of os that work on descriptors, or on names at a low level"""

    def f(*args, **kw):
        d = disk()
        if d is None:
            return REAL[which](*args, **kw)
        return getattr(d, method)(*args, **kw)

    f.__name__ = method
    return f


def _rename(which):
    def f(a, b, **kw):
        d = disk()
        if d is None:
            return REAL[which](a, b, **kw)
        return d.rename(a, b, which, **kw)

    f.__name__ = which
    return f


def _remove(which):
    def f(a, **kw):
        d = disk()
        if d is None:
            return REAL[which](a, **kw)
        return d.remove(a, which, **kw)

    f.__name__ = which
    return f


def sim_fsync(fd):
    d = disk()
    if d is None:
        return REAL["fsync"](fd)
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    return d.fsync(fd)


# ---- process identity, number of processors
def sim_getpid():
    ctx = core.CUR
    return REAL["getpid"]() if ctx is None else ctx.pid


_real_cpu_count = os.cpu_count


def sim_cpu_count(*_):
    n = node()
    if n is None:
        return _real_cpu_count()
    return n.spec.get("cpus", 4)


_real_affinity = getattr(os, "sched_getaffinity", None)


def sim_affinity(pid):
    n = node()
    if n is None:
        return _real_affinity(pid)
    return set(range(n.spec.get("cpus", 4)))


# ---- shared memory
_real_array = multiprocessing.context.BaseContext.Array
_real_rawarray = multiprocessing.context.BaseContext.RawArray


def sim_array(self, *args, **kwargs):
    n = node()
    if n is not None:
        n.array_count += 1
        if n.fault("array_fail", n.array_count):
            raise MemoryError("injected: no shared memory")
        n.tick()
    return _real_array(self, *args, **kwargs)


def sim_rawarray(self, *args, **kwargs):
    n = node()
    if n is not None:
        n.array_count += 1
        if n.fault("array_fail", n.array_count):
            raise MemoryError("injected: no shared memory")
        n.tick()
    return _real_rawarray(self, *args, **kwargs)


# ---- locks: a process must not block in the kernel while it's the only one that runs
def _sim_acquire(semlock):
    def acquire(block=True, timeout=None):
        ctx = core.CUR
        if ctx is None or not block:
            return semlock.acquire(block, timeout) if ctx is None else semlock.acquire(False)
        while True:
            if semlock.acquire(False):
                ctx.tick()
                return True
            if timeout is not None:
                return False
            if ctx.role == "worker":
                ctx.park("blocked")
            else:
                # the node waits for a lock that a worker holds
                progressed = False
                ctx.in_sim += 1
                try:
                    for ws in ctx.worker_sets:
                        if ws.live() and ctx.step(ws):
                            progressed = True
                            break
                finally:
                    ctx.in_sim -= 1
                if not progressed:
                    raise core.SimHang("waiting for a lock that's never released")

    return acquire


def _make_methods(self):
    self.acquire = _sim_acquire(self._semlock)
    self.release = self._semlock.release


def _semlock_enter(self):
    return self.acquire()


# ---- time
class SimClock:
    """a clock that goes forward a bit with every look, and may jump"""

    now = 1.6e9
    jumps = ()
    looks = 0
    steady = 1e5
    start = 0.0
    looks_random = 0

    @classmethod
    def time(cls):
        cls.looks += 1
        cls.now += 0.01
        for at, delta in cls.jumps:
            if at == cls.looks:
                cls.now += delta
        return cls.now


_real_time = time.time


def sim_time():
    return _real_time() if core.CUR is None else SimClock.time()


_real_monotonic = time.monotonic
_real_sleep = time.sleep


def sim_monotonic():
    if core.CUR is None:
        return _real_monotonic()
    # (doesn't jump)
    SimClock.steady += 0.01
    return SimClock.steady


def sim_sleep(seconds):
    """time passes, and so the others get on with what they do"""
    ctx = core.CUR
    if ctx is None or ctx.role not in ("node", "worker"):
        return _real_sleep(seconds)
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    SimClock.now += seconds
    SimClock.steady += seconds
    if ctx.role == "node":
        for ws in list(ctx.worker_sets):
            if ws.live():
                ctx.let_run(ws)
    ctx.tick()


# ---- randomness
_real_urandom = os.urandom


def sim_urandom(n):
    ctx = core.CUR
    if ctx is None:
        return _real_urandom(n)
    SimClock.looks_random += 1
    out = b""
    while len(out) < n:
        out += hashlib.sha256(repr((ctx.pid, SimClock.start, SimClock.looks_random, len(out))).encode()).digest()
    return out[:n]


def make_datetime():
    import datetime as dt

    class SimDatetime(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            if core.CUR is None:
                return dt.datetime.now(tz)
            return dt.datetime.fromtimestamp(SimClock.time(), tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            if core.CUR is None:
                return dt.datetime.utcnow()
            return dt.datetime.utcfromtimestamp(SimClock.time())

    return SimDatetime


# ---- the iteration order of sets
class HashOrder:
    key = 0


def _order(items):
    k = HashOrder.key
    if core.CUR is None or not k:
        return items

    def rank(x):
        h = 1469598103934665603 ^ k
        for ch in repr(x).encode():
            h = ((h ^ ch) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
        return h

    try:
        if all(isinstance(x, (str, bytes)) for x in items):
            return sorted(items, key=rank)
    except Exception:
        pass
    return items


class SimSet(set):
    def __iter__(self):
        return iter(_order(list(set.__iter__(self))))


class SimFrozenSet(frozenset):
    def __iter__(self):
        return iter(_order(list(frozenset.__iter__(self))))


MODULES = {}


def third_party():
    import concurrent.futures.thread  # noqa: F401
    import dask
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.constants  # noqa: F401
    import scipy.stats  # noqa: F401
    import xarray  # noqa: F401
    import h5netcdf  # noqa: F401
    import xarray.backends.api  # noqa: F401

    return dask


def install(numeric=False):
    dask = third_party()
    # pieces of dask aren't there on PyPy
    if not hasattr(sys, "pypy_version_info"):
        pass
    else:
        sys.getsizeof = lambda o, default=None: 64
    dask.config.set(scheduler="synchronous")

    builtins.open = sim_open
    io.open = sim_open
    for name in ("replace", "rename"):
        setattr(os, name, _rename(name))
    for name in ("remove", "unlink"):
        setattr(os, name, _remove(name))
    os.fsync = os.fdatasync = sim_fsync
    for name, which, method in (
        ("open", "os_open", "os_open"),
        ("write", "write", "os_write"),
        ("pwrite", "pwrite", "os_write"),
        ("sendfile", "sendfile", "sendfile"),
        ("truncate", "truncate", "truncate"),
        ("ftruncate", "truncate", "truncate"),
        ("link", "link", "link"),
    ):
        setattr(os, name, _by_descriptor(which, method))
    import pathlib
    import tempfile

    for name in ("open", "unlink", "rename", "replace", "link"):
        if hasattr(getattr(pathlib, "_NormalAccessor", None), name):
            setattr(pathlib._NormalAccessor, name, staticmethod(getattr(os, name)))
    real_rng = tempfile._RandomNameSequence.rng.fget

    def rng(self):
        if core.CUR is None:
            return real_rng(self)
        return random.Random(int.from_bytes(sim_urandom(8), "big"))

    tempfile._RandomNameSequence.rng = property(rng)
    closer = tempfile._TemporaryFileCloser.close
    closer.__defaults__ = tuple(os.unlink if x is REAL["unlink"] else x for x in closer.__defaults__)
    if hasattr(os, "copy_file_range"):
        del os.copy_file_range
    os.getpid = sim_getpid
    _finalize_init = multiprocessing.util.Finalize.__init__

    def finalize_init(self, *args, **kwargs):
        # it compares with the real one, which its class has bound early
        _finalize_init(self, *args, **kwargs)
        self._pid = REAL["getpid"]()

    multiprocessing.util.Finalize.__init__ = finalize_init
    os.cpu_count = sim_cpu_count
    if _real_affinity:
        os.sched_getaffinity = sim_affinity
    base = multiprocessing.context.BaseContext
    base.cpu_count = lambda self: sim_cpu_count()
    base.Array = sim_array
    base.RawArray = sim_rawarray
    default = multiprocessing.context._default_context
    multiprocessing.cpu_count = default.cpu_count
    multiprocessing.Array = default.Array
    multiprocessing.RawArray = default.RawArray
    multiprocessing.synchronize.SemLock._make_methods = _make_methods
    multiprocessing.synchronize.SemLock.__enter__ = _semlock_enter
    time.time = sim_time
    time.monotonic = time.perf_counter = sim_monotonic
    time.sleep = sim_sleep
    os.urandom = random._urandom = sim_urandom
    pools.install()
    sys.dont_write_bytecode = True

    sys.path.insert(0, SRC)
    import importlib

    from . import instrument

    instrument.install(SRC, numeric)

    pkg = importlib.import_module("climate_indices")
    core.PKG = os.path.dirname(os.path.abspath(pkg.__file__)) + os.sep
    assert os.path.realpath(core.PKG).startswith(os.path.realpath(SRC)), core.PKG
    real_datetime = __import__("datetime").datetime
    sim_datetime = make_datetime()
    for name in ("utils", "compute", "eto", "lmoments", "indices", "palmer", "__main__", "__spi__"):
        mod = importlib.import_module("climate_indices." + name)
        MODULES[name] = mod
        if name in ("__main__", "__spi__"):
            mod.__dict__.setdefault("set", SimSet)
            mod.__dict__.setdefault("frozenset", SimFrozenSet)
            if mod.__dict__.get("datetime") is real_datetime:
                mod.__dict__["datetime"] = sim_datetime
    core.remember_modules(MODULES.values())
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")


def warm_up(directory):
    """
    Let third-party code do for a while what the programs will do with it, so that it's
    compiled and has its caches filled (backends, engines) in the processes forked later on.
    """
    import glob

    import numpy as np
    import pandas as pd
    import xarray as xr

    os.makedirs(directory, exist_ok=True)
    for i in range(4):
        n = 24 + 12 * i
        paths = []
        for k, (engine, order) in enumerate(
            (("scipy", ("lat", "lon", "time")), ("h5netcdf", ("time", "lat", "lon")), ("scipy", ("time", "lat", "lon")))
        ):
            ds = xr.Dataset(
                {f"v{k}": (("lat", "lon", "time"), np.random.RandomState(i).uniform(size=(3, 2, n)), {"units": "mm"})},
                coords={
                    "lat": ("lat", np.arange(3.0), {"units": "degrees_north"}),
                    "lon": ("lon", np.arange(2.0), {"units": "degrees_east"}),
                    "time": pd.date_range("1990-01-01", periods=n, freq="MS"),
                },
                attrs={"title": "warm-up"},
            ).transpose(*order)
            path = os.path.join(directory, f"warm{i}{k}.nc")
            ds.to_netcdf(path, engine=engine)
            paths.append(path)
        chunks = {"lat": -1, "lon": -1}
        for some in (paths[:1], paths[1:2], paths[2:], paths[:2], paths):
            with xr.open_mfdataset(some, chunks=chunks, join="override") as ds:
                ds = ds.transpose("lat", "lon", "time", ..., missing_dims="ignore")
                for v in list(ds.data_vars):
                    x = ds[v].values
                    x *= 1.5
                    ds = ds.drop_vars(v) if v != "v0" else ds
                ds["new"] = xr.Variable(("lat", "lon", "time"), x, attrs={"long_name": "a variable"})
                ds.to_netcdf(os.path.join(directory, "out.nc"))
            with xr.open_dataset(some[0], chunks=chunks) as ds:
                str(ds[list(ds.data_vars)[0]].dims)
                int(ds["time"][0].dt.year)
                xr.Dataset(coords=ds.coords).to_netcdf(os.path.join(directory, "out.nc"))
            with xr.open_dataset(some[0]) as ds:
                ds.load()
    for path in glob.glob(os.path.join(directory, "*.nc")):
        REAL["unlink"](path)

    import scipy.stats

    for i in range(25):
        r = np.random.RandomState(i)
        x = r.gamma(2.0, 30.0, size=(3 + i % 7, 12))
        x[r.uniform(size=x.shape) < 0.1] = np.nan
        a, b = r.uniform(1, 3, size=12), r.uniform(10, 40, size=12)
        y = scipy.stats.gamma.cdf(x, a=a, scale=b)
        z = scipy.stats.norm.ppf(np.clip(y, 0.001, 0.999))
        y = scipy.stats.pearson3.cdf(x, r.uniform(0.1, 1, size=12), a, b)
        z = np.clip(scipy.stats.norm.ppf(np.where(x > 20, y, 0.5)), -3.09, 3.09).flatten()
        np.nanmean(x, axis=0), np.log(x), np.sqrt(a), np.power(a, 1.5), np.sum(x), np.all(np.isnan(x))
        np.hstack([np.ones(3), z[np.logical_not(np.isnan(z))]]), np.convolve(z, np.ones(3), mode="valid")
        np.apply_along_axis(lambda v, parameters=None: np.clip(v, 0, 1), axis=1, arr=x, parameters={})
        np.pad(z, (0, 5), "constant", constant_values=np.nan), np.sort(z), np.ma.is_masked(x), np.amin(x)
