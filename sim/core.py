"""
Deterministic simulation core.

A *node* is one simulated operating-system process that runs real climate_indices
code (a command, or several commands one after another).  Nodes are real forked
processes, and so are the worker processes of the pools they create, because the
properties depend on fork semantics (what is shared memory and what is a private
copy); but none of them ever runs on its own: every node and every worker is parked
on a pipe and only advances when the seeded scheduler grants it a number of
"yield points" (traced source lines of climate_indices, system calls that go
through the file seam, lock acquisitions, scheduling decisions).  At any moment at
most one of them is running, so that one seed is one execution.
"""

import copy
import errno
import os
import pickle
import random
import signal
import struct
import sys

PKG = None  # directory of the climate_indices package, set by seams.install()

INF = 1 << 60


class SimHang(BaseException):
    """Raised inside of a node if it can't make progress any more."""


class SimCrash(BaseException):
    """Never propagates: a crash ends the node with os._exit()."""


# ----------------------------------------------------------------------------------------
# messages over pipes
# ----------------------------------------------------------------------------------------
def send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while len(view):
        n = REAL["write"](fd, view[: 1 << 16])
        view = view[n:]


def _readn(fd, n):
    out = []
    while n:
        chunk = REAL["read"](fd, min(n, 1 << 20))
        if not chunk:
            raise EOFError
        out.append(chunk)
        n -= len(chunk)
    return b"".join(out)


def recv(fd):
    (n,) = struct.unpack("<Q", _readn(fd, 8))
    return pickle.loads(_readn(fd, n))


REAL = {
    "open": open,
    "os_open": os.open,
    "read": os.read,
    "write": os.write,
    "close": os.close,
    "replace": os.replace,
    "rename": os.rename,
    "remove": os.remove,
    "unlink": os.unlink,
    "fsync": os.fsync,
    "pwrite": os.pwrite,
    "link": os.link,
    "truncate": os.truncate,
    "sendfile": os.sendfile,
    "getpid": os.getpid,
    "fork": os.fork,
    "kill": os.kill,
    "waitpid": os.waitpid,
    "_exit": os._exit,
}


# ----------------------------------------------------------------------------------------
# choices
# ----------------------------------------------------------------------------------------
class Chooser:
    """
    Every nondeterministic choice comes from here.  In search mode choices are drawn from
    a PRNG and recorded, in replay mode the recorded choices are used, and once these are
    used up the default choice (0) is taken; a recorded list is thus also a schedule that
    can be shortened.
    """

    def __init__(self, seed, recorded=None):
        self.rng = random.Random(seed)
        self.recorded = None if recorded is None else list(recorded)
        self.pos = 0
        self.log = []

    def pick(self, n, weights=None):
        """choose an index in 0..n-1"""
        if n <= 1:
            return 0
        if self.recorded is not None:
            v = self.recorded[self.pos] if self.pos < len(self.recorded) else 0
            self.pos += 1
            v = v if v < n else 0
        elif weights:
            v = self.rng.choices(range(n), weights)[0]
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


QUANTA = (INF, 1, 2, 3, 5, 9, 17, 40, 120, 600, 3000)


# ----------------------------------------------------------------------------------------
# the context of the simulated process that we're in (a node or a worker of a node)
# ----------------------------------------------------------------------------------------
class Context:
    """what's common to nodes and workers: a budget of yield points, and line tracing"""

    role = None

    def __init__(self, rfd, wfd, pid):
        self.rfd, self.wfd = rfd, wfd
        self.budget = 0
        self.pid = pid
        self.lines = 0
        self.inject = None
        self.last = ""
        self.total = 0
        self.in_sim = 0

    # called before every statement of climate_indices
    def line(self, filename, lineno):
        self.lines += 1
        self.last = (filename, lineno)
        self.at_line()
        self.tick()

    def at_line(self):
        pass

    def where(self):
        return f"{self.last[0]}:{self.last[1]}" if self.last else ""

    def tick(self, n=1):
        """a yield point"""
        if self.in_sim:
            return
        self.total += n
        self.budget -= n
        if self.budget < 0:
            self.park()

    def park(self, why="pre"):
        raise NotImplementedError


CUR = None  # the Context of this process, or None outside of the simulation


def set_current(ctx):
    global CUR
    CUR = ctx


EXC = {
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "OSError": lambda m: OSError(errno.EIO, m),
    "RuntimeError": RuntimeError,
    "SystemExit": lambda m: SystemExit(143),
    "FloatingPointError": FloatingPointError,
    "ValueError": ValueError,
}


# ----------------------------------------------------------------------------------------
# workers (run in a process forked from a node)
# ----------------------------------------------------------------------------------------
class WorkerContext(Context):
    role = "worker"

    def __init__(self, rfd, wfd, pid, base_exceptions_returned):
        super().__init__(rfd, wfd, pid)
        self.base_exceptions_returned = base_exceptions_returned
        self.plan, self.hit, self.task_start = None, False, 0

    def wait_grant(self):
        try:
            msg = recv(self.rfd)
        except EOFError:
            REAL["_exit"](0)
        self.budget = msg["q"]
        if msg.get("inject"):
            self.inject = msg["inject"]
        return msg

    def park(self, why="pre"):
        self.in_sim += 1
        try:
            send(self.wfd, {"st": why, "loc": self.where(), "n": self.total, "hit": self.hit})
            self.hit = False
            self.wait_grant()
        finally:
            self.in_sim -= 1

    def at_line(self):
        if self.inject:
            kind, self.inject = self.inject, None
            raise EXC[kind](f"injected {kind}")
        if self.plan and self.lines - self.task_start == self.plan["at"]:
            plan, self.plan = self.plan, None
            if plan["k"] == "kill_worker":
                REAL["_exit"](137)
            self.hit = True
            raise EXC[plan["exc"]](f"injected {plan['exc']}")

    def main(self, initializer, initargs):
        # runs in the forked process and never returns
        try:
            self.wait_grant()
            self.in_sim = 0
            if initializer is not None:
                initializer(*initargs)
            self.in_sim = 1
            send(self.wfd, {"st": "idle", "loc": "init", "n": self.total})
            while True:
                msg = self.wait_grant()
                if msg.get("exit"):
                    break
                task = msg["task"]
                self.inject = msg.get("inject")
                self.plan, self.hit, self.task_start = msg.get("plan"), False, self.lines
                try:
                    func, args, kwargs = pickle.loads(task)
                    self.in_sim = 0
                    try:
                        result = (True, func(*args, **kwargs))
                    finally:
                        self.in_sim = 1
                except Exception as e:
                    result = (False, e)
                except BaseException as e:
                    if not self.base_exceptions_returned:
                        raise
                    result = (False, e)
                try:
                    data = dumps(result)
                except Exception as e:
                    data = dumps((False, RuntimeError(f"Error sending result: {e!r}")))
                lines = self.lines - self.task_start
                send(self.wfd, {"st": "done", "data": data, "loc": "", "n": self.total, "lines": lines, "hit": self.hit})
        except BaseException:
            REAL["_exit"](1)
        REAL["_exit"](0)


def dumps(obj):
    from multiprocessing.reduction import ForkingPickler

    return bytes(ForkingPickler.dumps(obj))


PRISTINE = []  # of (module dictionary, its values as they were after the import)


def plain(value):
    return isinstance(value, (dict, list, set, bytearray))


def remember_modules(modules):
    for m in modules:
        d = m.__dict__
        PRISTINE.append((d, {k: copy.deepcopy(v) if plain(v) and not k.startswith("__") else v for k, v in d.items()}))


def fresh_modules():
    """the package's modules as a process that was started afresh would have them"""
    for d, values in PRISTINE:
        for k in list(d):
            if k not in values:
                del d[k]
        for k, v in values.items():
            if not k.startswith("__"):
                d[k] = copy.deepcopy(v) if plain(v) else v


class Worker:
    """a worker process as seen from its node"""

    def __init__(self, wid, os_pid, rfd, wfd):
        self.wid, self.os_pid, self.rfd, self.wfd = wid, os_pid, rfd, wfd
        self.state = "new"  # new, idle, busy, blocked, dead
        self.task = None
        self.stalled = 0
        self.inited = False
        self.points = 0
        self.number = 0
        self.fault = None


class WorkerSet:
    """the worker processes of one pool or executor"""

    def __init__(self, node, initializer, initargs, base_exceptions_returned):
        self.node = node
        self.initializer, self.initargs = initializer, initargs
        self.workers = []
        self.queue = []  # of (task id, pickled task)
        self.done = {}  # task id -> (ok, value)
        self.lost = []
        self.deaths = 0
        self.base_exceptions_returned = base_exceptions_returned
        self.closing = False
        self.on_death = None
        self.respawn = False
        self.task_seq = 0
        self.max_tasks = None
        node.worker_sets.append(self)

    def spawn(self):
        node = self.node
        node.fork_count += 1
        if node.fault("fork_fail", node.fork_count):
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if node.spec.get("start") == "spawn" and self.initializer is not None:
            dumps(self.initializer)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        wid = len(self.workers)
        node.worker_seq += 1
        pid = node.pid * 100 + node.worker_seq
        node.in_sim += 1
        os_pid = REAL["fork"]()
        if os_pid == 0:
            try:
                node.forget_in_child()
                REAL["close"](w1)
                REAL["close"](r2)
                for ws in node.worker_sets:
                    for w in ws.workers:
                        if w.state != "dead":
                            REAL["close"](w.rfd)
                            REAL["close"](w.wfd)
                ctx = WorkerContext(r1, w2, pid, self.base_exceptions_returned)
                ctx.disk = None
                ctx.in_sim = 1
                set_current(ctx)
                if node.spec.get("start") == "spawn":
                    # nothing is inherited from the parent
                    fresh_modules()
                ctx.main(self.initializer, self.initargs)
            finally:
                REAL["_exit"](1)
        REAL["close"](r1)
        REAL["close"](w2)
        node.in_sim -= 1
        worker = Worker(wid, os_pid, r2, w1)
        self.workers.append(worker)
        node.peak = max(node.peak, sum(len(ws.live()) for ws in node.worker_sets))
        node.event("spawn", wid)
        return worker

    def submit(self, func, args, kwargs):
        data = dumps((func, args, kwargs))
        self.task_seq += 1
        self.queue.append((self.task_seq, data))
        return self.task_seq

    def live(self):
        return [w for w in self.workers if w.state != "dead"]

    def runnable(self):
        out = []
        for w in self.workers:
            if w.state in ("new", "busy"):
                out.append(w)
            elif w.state == "idle" and self.queue:
                out.append(w)
        return out

    def unblock(self):
        for w in self.workers:
            if w.state == "blocked":
                w.state = "busy" if w.task is not None else "new"

    def grant(self, w, quantum, inject=None):
        """let a worker run, and process whatever it has reported when it parks again"""
        node = self.node
        msg = {"q": quantum}
        if w.state == "idle":
            tid, data = self.queue.pop(0)
            w.task = tid
            msg["task"] = data
            node.task_count += 1
            w.number = node.task_count
            for f in node.faults:
                # at a statement of a certain task
                if f.get("task") == w.number and not f.get("used"):
                    w.fault = f
                    msg["plan"] = {k: f[k] for k in ("k", "at", "exc") if k in f}
                    break
            node.event("task", w.wid, tid)
        if inject:
            msg["inject"] = inject
        try:
            send(w.wfd, msg)
            rep = recv(w.rfd)
        except (EOFError, BrokenPipeError):
            self.reap(w)
            if w.fault and w.fault["k"] == "kill_worker":
                node.fire(w.fault)
            self.died(w)
            return
        if rep.get("hit"):
            node.fire(w.fault)
        if rep["st"] == "done":
            node.task_lines.append([w.number, rep["lines"]])
            w.fault = None
        node.event("run", w.wid, rep["st"], rep["loc"], rep["n"])
        w.points = rep["n"]
        node.total += 1
        if rep["st"] == "blocked":
            w.state = "blocked"
            return
        for x in self.workers:
            if x is not w and x.state == "blocked":
                x.state = "busy" if x.task is not None else "new"
        if rep["st"] == "done":
            ok, value = pickle.loads(rep["data"])
            self.done[w.task] = (ok, value)
            w.task = None
            w.state = "idle"
            w.ntasks = getattr(w, "ntasks", 0) + 1
            if self.max_tasks and w.ntasks >= self.max_tasks:
                self.stop_worker(w)
                self.spawn()
        elif rep["st"] == "idle":
            w.state = "idle"
            w.inited = True
        else:
            w.state = "busy" if w.task is not None else "new"

    def reap(self, w):
        if w.state == "dead":
            return
        w.state = "dead"
        REAL["close"](w.rfd)
        REAL["close"](w.wfd)
        try:
            REAL["waitpid"](w.os_pid, 0)
        except ChildProcessError:
            pass

    def died(self, w):
        """the process of a worker has ended without having been told to"""
        self.deaths += 1
        self.node.event("died", w.wid, w.task)
        if w.task is not None:
            self.lost.append(w.task)
            w.task = None
        self.unblock()
        if self.on_death:
            self.on_death(w)
        elif self.respawn and not self.closing_hard():
            if self.deaths > 50:
                raise SimHang("worker processes die and are replaced endlessly")
            self.spawn()

    def closing_hard(self):
        return self.closing == "terminate"

    def kill_worker(self, w):
        REAL["kill"](w.os_pid, signal.SIGKILL)
        self.reap(w)
        self.died(w)

    def stop_worker(self, w):
        if w.state == "dead":
            return
        if w.state == "idle":
            try:
                send(w.wfd, {"q": INF, "exit": True})
            except BrokenPipeError:
                pass
        else:
            REAL["kill"](w.os_pid, signal.SIGKILL)
        self.reap(w)
        self.node.event("stop", w.wid)

    def terminate(self):
        self.closing = "terminate"
        for w in self.workers:
            if w.state not in ("dead",):
                w.fault = None
                if w.state != "idle" or self.queue:
                    self.node.note("terminated_busy_worker")
                REAL["kill"](w.os_pid, signal.SIGKILL)
                self.reap(w)
                self.node.event("term", w.wid)
        self.queue = []

    def stop_idle(self):
        for w in self.workers:
            if w.state != "dead":
                self.stop_worker(w)

    def outstanding(self):
        return bool(self.queue) or any(w.task is not None for w in self.workers if w.state != "dead")


# ----------------------------------------------------------------------------------------
# nodes
# ----------------------------------------------------------------------------------------
class NodeContext(Context):
    role = "node"

    def __init__(self, rfd, wfd, spec):
        super().__init__(rfd, wfd, spec["pid"])
        self.spec = spec
        self.chooser = Chooser(spec["seed"], spec.get("decisions"))
        self.events = []
        self.notes = {}
        self.worker_sets = []
        self.worker_seq = 0
        self.fork_count = 0
        self.array_count = 0
        self.task_count = 0
        self.task_lines = []
        self.peak = 0
        self.decisions = 0
        self.faults = []
        self.fired = []
        self.step_limit = spec.get("step_limit", 3_000_000)
        self.disk = None
        self.cmd_lines = 0
        self.counts = {}
        self.in_sim = 1
        self.grants = 0
        self.waiting = False  # for a result of a worker
        self.clock = None

    # ---- scheduling of this node by the root scheduler
    def wait_grant(self):
        msg = recv(self.rfd)
        self.budget = msg["q"]

    def park(self, why="pre"):
        self.in_sim += 1
        try:
            self.grants += 1
            send(self.wfd, {"st": why, "loc": self.where()})
            self.wait_grant()
        finally:
            self.in_sim -= 1

    def forget_in_child(self):
        REAL["close"](self.rfd)
        REAL["close"](self.wfd)

    def event(self, *what):
        self.events.append(what)

    def note(self, what, n=1):
        self.notes[what] = self.notes.get(what, 0) + n

    # ---- faults
    def fault(self, kind, count, peek=False):
        """is there a fault of this kind planned for this occurrence?"""
        self.counts[kind] = count
        for f in self.faults:
            if f["k"] == kind and f["at"] == count and not f.get("used") and not f.get("task"):
                if not peek:
                    self.fire(f)
                return f
        return None

    def fire(self, f):
        f["used"] = True
        self.fired.append({k: v for k, v in f.items() if k != "used"})
        self.event("fault", f["k"], f["at"])

    def at_line(self):
        self.cmd_lines += 1
        if self.total > self.step_limit:
            raise SimHang("step limit")
        if not self.faults:
            return
        f = self.fault("parent_exc", self.cmd_lines)
        if f:
            raise EXC[f["exc"]](f"injected {f['exc']}")
        f = self.fault("crash_line", self.cmd_lines)
        if f:
            self.crash()

    def begin_command(self, faults):
        self.faults = [dict(f) for f in faults]
        self.fired = []
        self.cmd_lines = 0
        self.decisions = 0
        self.fork_count = 0
        self.array_count = 0
        self.task_count = 0
        self.task_lines = []
        self.peak = 0
        self.counts = {}
        if self.disk:
            self.disk.begin_command()

    def end_command(self):
        c = {
            "lines": self.cmd_lines,
            "decisions": self.decisions,
            "forks": self.fork_count,
            "arrays": self.array_count,
            "tasks": sorted(self.task_lines),
            "peak": self.peak,
        }
        if self.disk:
            c.update(self.disk.counts())
        self.faults = []
        return c

    # ---- one scheduling decision among the workers
    def step(self, ws):
        """returns False if nothing can run"""
        ready = ws.runnable()
        if not ready:
            return False
        self.decisions += 1
        if self.decisions > 60_000:
            raise SimHang("scheduling decision limit")
        if self.waiting:
            for f in self.faults:
                # at the planned decision or the first one after it at which the node waits
                if f["k"] == "int_wait" and self.decisions >= f["at"] and not f.get("used"):
                    self.fire(f)
                    raise EXC[f["exc"]](f"injected {f['exc']}")
        f = self.fault("kill_worker", self.decisions)
        if f:
            live = ws.live()
            # mostly choose a worker that is in the middle of something
            busy = [w for w in live if w.task is not None]
            pool = busy if (busy and f.get("busy", True)) else live
            w = pool[self.chooser.pick(len(pool))]
            ws.kill_worker(w)
            return True
        active = [w for w in ready if w.stalled <= 0]
        for w in ready:
            w.stalled -= 1
        if active:
            ready = active
        w = ready[self.chooser.pick(len(ready))]
        f = self.fault("stall_worker", self.decisions)
        if f:
            w.stalled = f["len"]
            return True
        inject = None
        for f in self.faults:
            # given to the first worker that runs a task at or after the planned decision
            if f["k"] == "worker_exc" and self.decisions >= f["at"] and not f.get("used") and not f.get("task"):
                if w.task is not None or (w.state == "idle" and ws.queue):
                    self.fire(f)
                    inject = f["exc"]
                    break
        qi = self.chooser.pick(len(QUANTA), self.spec.get("qweights"))
        ws.grant(w, QUANTA[qi], inject)
        self.tick()
        return True

    def run_until(self, ws, pred, result=True):
        """the node waits for something to happen in its pool"""
        self.in_sim += 1
        self.waiting = result
        try:
            while not pred():
                if not self.step(ws):
                    raise SimHang("waiting for a result that can't arrive any more")
                self.in_sim -= 1
                try:
                    self.tick()
                finally:
                    self.in_sim += 1
        finally:
            self.in_sim -= 1
            self.waiting = False

    def let_run(self, ws):
        """the node does something without waiting, meanwhile workers run for a while"""
        self.in_sim += 1
        try:
            n = self.chooser.pick(4)
            n = (0, 1, 4, 12)[n]
            while n > 0 and self.step(ws):
                n -= 1
        finally:
            self.in_sim -= 1

    def drain(self):
        """at the end of a command let whatever is still running finish by itself"""
        self.in_sim += 1
        try:
            for ws in self.worker_sets:
                if ws.closing == "terminate":
                    continue
                while self.step(ws):
                    pass
                if ws.closing:
                    ws.stop_idle()
        finally:
            self.in_sim -= 1
        return sum(len(ws.live()) for ws in self.worker_sets)

    def kill_all_workers(self):
        for ws in self.worker_sets:
            for w in ws.workers:
                if w.state != "dead":
                    try:
                        REAL["kill"](w.os_pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    ws.reap(w)

    # ---- the end
    def crash(self):
        """the process is killed at this instant: no handler, destructor or buffer flush runs"""
        self.in_sim += 1
        self.kill_all_workers()
        self.finish({"outcome": "crash"})

    def finish(self, last):
        out = {
            "st": "end",
            "last": last,
            "fired": self.fired,
            "events": self.events,
            "notes": self.notes,
            "log": self.chooser.log,
            "counts": self.end_command(),
            "disk": self.disk.log if self.disk else None,
            "total": self.total + sum(w.points for ws in self.worker_sets for w in ws.workers),
            "clock": self.clock() if self.clock else 0.0,
        }
        send(self.wfd, out)
        REAL["_exit"](0)
