"""
The process seam: multiprocessing.Pool and concurrent.futures.ProcessPoolExecutor, with the
semantics of the real ones (which the real ones have by way of threads, queues and waiting)
but with all scheduling decided by the node's scheduler.

What is kept of the real semantics, because properties depend on it:
- workers are forked when the pool is made (executor: when tasks are submitted), so that they
  see the memory of that moment, and only shared memory afterwards;
- tasks and results are pickled;
- tasks are taken from one queue by whichever worker gets there first, in chunks;
- Pool: a task held by a worker that dies is lost, the worker is replaced, and the result
  never arrives; leaving the `with` block terminates workers at once, whatever they're doing;
- executor: a worker that dies breaks the executor, leaving the `with` block waits for
  everything that was submitted.
"""

import concurrent.futures
import concurrent.futures.process
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
from concurrent.futures.process import BrokenProcessPool

from . import core
from .core import SimHang, WorkerSet

REAL_POOL_CLASS = multiprocessing.pool.Pool
REAL_EXECUTOR = concurrent.futures.process.ProcessPoolExecutor
_done = concurrent.futures.Future.done
REAL_WAIT = concurrent.futures.wait
REAL_AS_COMPLETED = concurrent.futures.as_completed


def node():
    ctx = core.CUR
    return ctx if ctx is not None and ctx.role == "node" else None


def _mapstar(func, batch):
    return [func(x) for x in batch]


def _starmapstar(func, batch):
    return [func(*x) for x in batch]


# ----------------------------------------------------------------------------------------
# multiprocessing.Pool
# ----------------------------------------------------------------------------------------
class SimAsyncResult:
    def __init__(self, pool, tids, combine, callback=None, error_callback=None):
        self.pool, self.tids, self.combine = pool, tids, combine
        self.callback, self.error_callback = callback, error_callback
        self.called = False

    def ready(self):
        self.pool._node.let_run(self.pool._ws)
        return self._ready()

    def _ready(self):
        done = self.pool._ws.done
        ok = all(t in done for t in self.tids)
        if ok and not self.called:
            self.called = True
            good, value = self._value()
            if good and self.callback:
                self.callback(value)
            if not good and self.error_callback:
                self.error_callback(value)
        return ok

    def _value(self):
        parts = []
        for t in self.tids:
            good, value = self.pool._ws.done[t]
            if not good:
                return False, value
            parts.append(value)
        return True, self.combine(parts)

    def successful(self):
        if not self._ready():
            raise ValueError(f"{self!r} not ready")
        return self._value()[0]

    def wait(self, timeout=None):
        if timeout is not None:
            self.pool._node.let_run(self.pool._ws)
            self.pool._waits += 1
            if self.pool._waits > 5000:
                # waiting with a timeout, again and again
                if not self.pool._ws.runnable():
                    raise SimHang("polling for a result that can't arrive any more")
            return
        self.pool._node.run_until(self.pool._ws, self._ready)

    def get(self, timeout=None):
        if timeout is not None:
            # time passes only if nothing can run
            node = self.pool._node
            while not self._ready():
                node.in_sim += 1
                try:
                    if not node.step(self.pool._ws):
                        raise multiprocessing.TimeoutError
                finally:
                    node.in_sim -= 1
        else:
            self.pool._node.run_until(self.pool._ws, self._ready)
        good, value = self._value()
        if not good:
            raise value
        return value


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._node = node()
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._processes = processes
        self._ws = WorkerSet(self._node, initializer, initargs, False)
        self._ws.respawn = True
        self._ws.max_tasks = maxtasksperchild
        self._state = "RUN"
        self._waits = 0
        self._node.note("pool")
        try:
            for _ in range(processes):
                self._ws.spawn()
        except BaseException:
            self._ws.terminate()
            raise

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    # submission
    def _submit(self, func, args=(), kwargs=None):
        return self._ws.submit(func, args, kwargs or {})

    def _map_async(self, func, iterable, star, chunksize, callback=None, error_callback=None):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        tids = []
        for i in range(0, len(items), chunksize):
            tids.append(self._submit(_starmapstar if star else _mapstar, (func, items[i : i + chunksize])))
        self._node.let_run(self._ws)
        return SimAsyncResult(
            self, tids, lambda parts: list(itertools.chain.from_iterable(parts)), callback, error_callback
        )

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, True, chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self._check()
        tid = self._submit(func, args, kwds)
        self._node.let_run(self._ws)
        return SimAsyncResult(self, [tid], lambda parts: parts[0], callback, error_callback)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        self._check()
        results = []
        items = list(iterable)
        for i in range(0, len(items), chunksize):
            tid = self._submit(_mapstar, (func, items[i : i + chunksize]))
            results.append(SimAsyncResult(self, [tid], lambda parts: parts[0]))
        self._node.let_run(self._ws)

        def gen():
            for r in results:
                yield from r.get()

        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        items = list(iterable)
        pending = [
            self._submit(_mapstar, (func, items[i : i + chunksize])) for i in range(0, len(items), chunksize)
        ]
        self._node.let_run(self._ws)

        def gen():
            while pending:
                self._node.run_until(self._ws, lambda: any(t in self._ws.done for t in pending))
                t = next(t for t in self._ws.done if t in pending)
                pending.remove(t)
                good, value = self._ws.done[t]
                if not good:
                    raise value
                yield from value

        return gen()

    # the end
    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
            self._ws.closing = "close"

    def terminate(self):
        self._node.let_run(self._ws)
        self._state = "TERMINATE"
        self._ws.terminate()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        if self._state == "CLOSE":
            self._node.run_until(self._ws, lambda: not self._ws.outstanding(), result=False)
            self._ws.stop_idle()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


# ----------------------------------------------------------------------------------------
# concurrent.futures.ProcessPoolExecutor
# ----------------------------------------------------------------------------------------
class SimFuture(concurrent.futures.Future):
    """a future whose waiting is done by the scheduler"""

    def __init__(self, executor, tid):
        super().__init__()
        self._executor, self._tid = executor, tid

    def _drive(self, timeout=None):
        ex = self._executor
        if timeout is not None:
            while not self._is_done():
                ex._node.in_sim += 1
                try:
                    more = ex._node.step(ex._ws)
                finally:
                    ex._node.in_sim -= 1
                ex._settle()
                if not more and not self._is_done():
                    return
        else:
            ex._run_until(self._is_done)

    def _is_done(self):
        return super().done()

    def done(self):
        ex = self._executor
        if not self._is_done() and ex._node.in_sim == 0:
            # somebody is polling
            ex._node.let_run(ex._ws)
            ex._settle()
            ex._polls += 1
            if ex._polls > 5000 and not ex._ws.runnable() and not self._is_done():
                raise SimHang("polling for a result that can't arrive any more")
        return self._is_done()

    def result(self, timeout=None):
        self._drive(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._drive(timeout)
        return super().exception(0)

    def cancel(self):
        ex = self._executor
        if not self._is_done():
            for i, (tid, _) in enumerate(ex._ws.queue):
                if tid == self._tid:
                    # (the real executor may already have put it into the call queue)
                    if ex._node.chooser.pick(2) == 0:
                        del ex._ws.queue[i]
                        return super().cancel()
                    break
        return super().done() and super().cancelled()


def _process_chunk(fn, chunk):
    return [fn(*args) for args in chunk]


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kwargs):
        self._node = node()
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        elif max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._max = max_workers
        self._ws = WorkerSet(self._node, initializer, initargs, True)
        self._ws.on_death = self._broke
        self._futures = {}
        self._broken = False
        self._shut = False
        self._polls = 0
        self._node.note("executor")

    def _broke(self, worker):
        self._broken = True
        self._ws.terminate()
        for f in list(self._futures.values()):
            if not _done(f):
                f.set_exception(
                    BrokenProcessPool(
                        "A process in the process pool was terminated abruptly while the future was running or pending."
                    )
                )

    def _settle(self):
        for tid, (good, value) in list(self._ws.done.items()):
            f = self._futures.get(tid)
            if f is not None and not _done(f):
                if f._state == "PENDING":
                    f.set_running_or_notify_cancel()
                if good:
                    f.set_result(value)
                else:
                    f.set_exception(value)

    def _run_until(self, pred, result=True):
        def done():
            self._settle()
            return pred()

        self._node.run_until(self._ws, done, result)

    def submit(self, fn, /, *args, **kwargs):
        if self._broken:
            raise BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if len(self._ws.workers) < self._max:
            self._ws.spawn()
        tid = self._ws.submit(fn, args, kwargs)
        f = SimFuture(self, tid)
        self._futures[tid] = f
        self._node.let_run(self._ws)
        self._settle()
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        items = list(zip(*iterables))
        fs = [
            self.submit(_process_chunk, fn, items[i : i + chunksize]) for i in range(0, len(items), chunksize)
        ]

        def gen():
            try:
                fs.reverse()
                while fs:
                    yield from fs.pop().result(timeout)
            finally:
                for f in fs:
                    f.cancel()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._shut and self._ws.closing:
            return
        self._shut = True
        if cancel_futures:
            for f in self._futures.values():
                f.cancel()
        self._ws.closing = self._ws.closing or "close"
        if wait and not self._broken:
            self._run_until(lambda: not self._ws.outstanding(), result=False)
            self._ws.stop_idle()


def sim_wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    fs = list(fs)
    if node() is None or not all(isinstance(f, SimFuture) for f in fs):
        return REAL_WAIT(fs, timeout, return_when)

    def enough():
        done = [f for f in fs if _done(f)]
        if return_when == concurrent.futures.FIRST_COMPLETED:
            return bool(done) or not fs
        if return_when == concurrent.futures.FIRST_EXCEPTION and any(
            not f.cancelled() and f._exception is not None for f in done
        ):
            return True
        return len(done) == len(fs)

    if fs:
        fs[0]._executor._run_until(enough)
    done = {f for f in fs if _done(f)}
    return type(REAL_WAIT([]))(done, set(fs) - done)


def sim_as_completed(fs, timeout=None):
    fs = list(fs)
    if node() is None or not all(isinstance(f, SimFuture) for f in fs):
        yield from REAL_AS_COMPLETED(fs, timeout)
        return
    pending = list(fs)
    while pending:
        ready = [f for f in pending if _done(f)]
        if not ready:
            pending[0]._executor._run_until(lambda: any(_done(f) for f in pending))
            ready = [f for f in pending if _done(f)]
        for f in ready:
            pending.remove(f)
            yield f


# ----------------------------------------------------------------------------------------
# installation
# ----------------------------------------------------------------------------------------
def make_pool(*args, **kwargs):
    if node() is None:
        return REAL_POOL_CLASS(*args, **kwargs)
    return SimPool(*args, **kwargs)


class PoolMeta(type):
    def __call__(cls, *args, **kwargs):
        if cls is PoolClass and node() is not None:
            kwargs.pop("context", None)
            return SimPool(*args, **kwargs)
        return super().__call__(*args, **kwargs)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (REAL_POOL_CLASS, SimPool))


class PoolClass(REAL_POOL_CLASS, metaclass=PoolMeta):
    pass


class ExecutorMeta(type(REAL_EXECUTOR)):
    def __call__(cls, *args, **kwargs):
        if node() is not None:
            return SimExecutor(*args, **kwargs)
        return super().__call__(*args, **kwargs)


class ExecutorClass(REAL_EXECUTOR, metaclass=ExecutorMeta):
    pass


def install():
    def pool_method(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if node() is not None:
            return SimPool(processes, initializer, initargs, maxtasksperchild)
        return REAL_POOL_CLASS(processes, initializer, initargs, maxtasksperchild, context=self.get_context())

    multiprocessing.context.BaseContext.Pool = pool_method
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.pool.Pool = PoolClass
    concurrent.futures.process.ProcessPoolExecutor = ExecutorClass
    concurrent.futures.ProcessPoolExecutor = ExecutorClass
    concurrent.futures.wait = sim_wait
    concurrent.futures.as_completed = sim_as_completed
