"""
The simulated processes: a node runs commands one after another, stopping after each.
"""

import gc
import os
import random
import signal
import sys
import traceback

from . import core, disk, seams, workload
from .core import INF, REAL, NodeContext, SimHang, recv, send


class Inconclusive(Exception):
    """the harness couldn't decide (e.g. real time ran out); never a violation"""


def short(e):
    return f"{type(e).__name__}: {e}"[:300]


def run_command(c, state):
    """run one command inside of the node; whatever it raises is its outcome"""
    if c["tool"] == "pci":
        mod = seams.MODULES["__main__"]
        if c.get("api") == "main":
            sys.argv = ["process_climate_indices"] + workload.pci_argv(c)
            mod.main()
        else:
            share = c.get("share")
            if share is not None and share in state:
                ns = state[share]
            else:
                ns = workload.pci_namespace(c, seams.MODULES["compute"])
                if share is not None:
                    state[share] = ns
            mod.process_climate_indices(ns)
    elif c["tool"] == "spi":
        mod = seams.MODULES["__spi__"]
        sys.argv = ["spi"] + workload.spi_argv(c)
        mod.main()
    else:
        raise AssertionError(c["tool"])


def node_main(rfd, wfd, spec, root):
    """runs in the process of the node, and doesn't return"""
    os.setsid()
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    os.chdir(root)
    gc.disable()
    ctx = NodeContext(rfd, wfd, spec)
    ctx.disk = disk.SimDisk(ctx, root)
    seams.HashOrder.key = spec.get("hashkey", 0)
    seams.SimClock.now = spec.get("clock", 1.6e9)
    seams.SimClock.jumps = tuple(tuple(j) for j in spec.get("jumps", ()))
    seams.SimClock.looks = seams.SimClock.looks_random = 0
    seams.SimClock.steady = 1e5
    seams.SimClock.start = seams.SimClock.now
    random.seed(spec.get("hashkey", 0) * 100_003 + spec.get("pid", 0))
    sys.modules["numpy"].random.seed(spec.get("hashkey", 0) % 100_003 + spec.get("pid", 0))
    clock0 = seams.SimClock.now
    ctx.clock = lambda: [seams.SimClock.looks, seams.SimClock.now - clock0]
    core.set_current(ctx)
    state = {}
    ctx.in_sim = 1
    try:
        ctx.wait_grant()
        for i, c in enumerate(spec["commands"]):
            if c["tool"] == "put":
                # somebody replaces an input file
                put_file(root, c)
                send(wfd, {"st": "cmd_end", "i": i, "status": "put", "counts": {}, "fired": [], "leaked": 0})
                ctx.wait_grant()
                continue
            ctx.begin_command([f for f in spec.get("faults", ()) if f.get("cmd", 0) == i])
            first_log = len(ctx.disk.log)
            status, detail = "ok", ""
            ctx.event("cmd", i)
            ctx.in_sim = 0
            try:
                run_command(c, state)
            except SimHang as e:
                status, detail = "hang", str(e)
            except BaseException as e:
                status = "error"
                detail = short(e) + " @ " + location(e)
            finally:
                ctx.in_sim = 1
            leaked = 0
            faults, ctx.faults = ctx.faults, []
            if status != "hang":
                try:
                    leaked = ctx.drain()
                except SimHang as e:
                    status, detail = "hang", f"workers don't end: {e}"
            open_writers = [w.rel for w in disk.SimWriter.OPEN if not w.closed]
            ctx.faults = faults
            counts = ctx.end_command()
            # what's not been closed is closed by destructors
            if open_writers:
                gc.collect()
            held = resources(root, ctx) if spec.get("resources") else None
            ctx.event("end", i, status)
            send(
                wfd,
                {
                    "st": "cmd_end",
                    "i": i,
                    "status": status,
                    "detail": detail,
                    "counts": counts,
                    "fired": ctx.fired,
                    "leaked": leaked,
                    "open": open_writers,
                    "held": held,
                    "log": [first_log, len(ctx.disk.log)],
                },
            )
            if status == "hang":
                break
            ctx.wait_grant()
        ctx.kill_all_workers()
        ctx.finish({"outcome": "end"})
    except BaseException as e:
        try:
            send(wfd, {"st": "broken", "what": "".join(traceback.format_exception(type(e), e, e.__traceback__))})
        finally:
            REAL["_exit"](3)


def resources(root, ctx):
    """what this process holds when everything that's unused has been collected"""
    from multiprocessing import heap

    for ws in ctx.worker_sets:
        if not ws.live():
            # (the simulator's own references)
            ws.initargs = ws.on_death = ws.initializer = None
            ws.done, ws.queue = {}, []
    gc.enable()  # (PyPy calls no destructors otherwise)
    faults, ctx.faults = ctx.faults, []
    ctx.in_sim = 0  # the program's destructors, they look at its process id
    for _ in range(4):
        gc.collect()
    ctx.in_sim = 1
    ctx.faults = faults
    gc.disable()
    files, descriptors = [], 0
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if "/pym-" not in target:  # (arenas of the heap of shared arrays)
            descriptors += 1
        if target.startswith(root + "/"):
            files.append(os.path.relpath(target, root))
    with REAL["open"]("/proc/self/maps") as f:
        for line in f:
            at = line.find(root + "/")
            if at >= 0:
                files.append(line[at + len(root) + 1 :].strip())
    # blocks of shared arrays, all of them are of the heap of this process
    h = heap.BufferWrapper._heap
    h._free_pending_blocks()
    shared = sum(stop - start for arena in h._allocated_blocks.values() for start, stop in arena)
    return {"files": sorted(set(files)), "descriptors": descriptors, "shared": shared}


def location(e):
    tb, where = e.__traceback__, ""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(core.PKG):
            where = f"{os.path.basename(name)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return where


def put_file(root, c):
    data = workload.file_bytes(c["file"], os.path.dirname(root))
    path = os.path.join(root, c["name"])
    tmp = path + ".put"
    with REAL["open"](tmp, "wb") as f:
        f.write(data)
    REAL["replace"](tmp, path)


class Node:
    """a node as seen by the root scheduler"""

    def __init__(self, spec, root, deadline=120):
        self.spec, self.root = spec, root
        self.deadline = deadline
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.os_pid = REAL["fork"]()
        if self.os_pid == 0:
            try:
                REAL["close"](w1)
                REAL["close"](r2)
                node_main(r1, w2, spec, root)
            finally:
                REAL["_exit"](4)
        REAL["close"](r1)
        REAL["close"](w2)
        self.rfd, self.wfd = r2, w1
        self.alive = True
        self.end = None
        self.parks = 0

    def grant(self, quantum):
        """let it run; returns its next message"""
        import select

        try:
            send(self.wfd, {"q": quantum})
            ready, _, _ = select.select([self.rfd], [], [], self.deadline)
            if not ready:
                raise Inconclusive("real time ran out")
            msg = recv(self.rfd)
        except (EOFError, BrokenPipeError):
            self.destroy()
            raise Inconclusive("a simulated process has disappeared")
        except Inconclusive:
            self.destroy()
            raise
        if msg["st"] == "broken":
            self.destroy()
            raise Inconclusive(msg["what"])
        if msg["st"] == "end":
            self.end = msg
            self.close()
        return msg

    def close(self):
        if self.alive:
            self.alive = False
            REAL["close"](self.rfd)
            REAL["close"](self.wfd)
            try:
                REAL["waitpid"](self.os_pid, 0)
            except ChildProcessError:
                pass

    def destroy(self):
        if self.alive:
            try:
                os.killpg(self.os_pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                REAL["kill"](self.os_pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.close()


def in_child(func, *args, deadline=120):
    """run a function in a process forked from this one"""
    import select

    r, w = os.pipe()
    pid = REAL["fork"]()
    if pid == 0:
        try:
            REAL["close"](r)
            gc.disable()
            try:
                out = ("ok", func(*args))
            except BaseException as e:
                out = ("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            send(w, out)
        finally:
            REAL["_exit"](0)
    REAL["close"](w)
    try:
        ready, _, _ = select.select([r], [], [], deadline)
        if not ready:
            REAL["kill"](pid, signal.SIGKILL)
            raise Inconclusive("real time ran out in the oracle")
        out = recv(r)
    except EOFError:
        raise Inconclusive("the oracle's process has disappeared")
    finally:
        REAL["close"](r)
        REAL["waitpid"](pid, 0)
    if out[0] != "ok":
        raise Inconclusive("oracle: " + out[1])
    return out[1]
