"""
Search: many cases on several lanes, confirmation and minimisation of what's found, replay.

A lane is a process in which no function of climate_indices is ever called, it only forks the
simulated processes (and the oracle's).  What a trial does depends on the property, the seed
and the number of the trial, not on the lane or on what ran before.
"""

import copy
import gc
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import case, core, minimise, plans, seams, workload
from .core import REAL, recv, send
from .node import Inconclusive

real_time = seams._real_time


# ----------------------------------------------------------------------------------------
# the oracle of a lane: a process that goes on from one question to the next, and so is fast
# ----------------------------------------------------------------------------------------
class FastOracle(case.Oracle):
    def __init__(self):
        super().__init__()
        self.pid = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = REAL["fork"]()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                REAL["close"](w1)
                REAL["close"](r2)
                while True:
                    key = recv(r1)
                    send(w2, workload.evaluate(key, seams.MODULES))
            except BaseException:
                pass
            finally:
                REAL["_exit"](0)
        REAL["close"](r1)
        REAL["close"](w2)
        self.rfd, self.wfd = r2, w1

    def stop(self):
        if self.pid:
            REAL["kill"](self.pid, signal.SIGKILL)
            REAL["waitpid"](self.pid, 0)
            REAL["close"](self.rfd)
            REAL["close"](self.wfd)
            self.pid = None

    def need(self, keys):
        for k in keys:
            kid = workload.key_id(k)
            if kid in self.results:
                continue
            if self.pid is None:
                self.start()
            try:
                send(self.wfd, k)
                ready, _, _ = select.select([self.rfd], [], [], 120)
                if not ready:
                    raise Inconclusive("real time ran out in the oracle")
                self.results[kid] = recv(self.rfd)
            except (EOFError, BrokenPipeError):
                self.stop()
                raise Inconclusive("the oracle's process has disappeared")
            except Inconclusive:
                self.stop()
                raise


class Processes:
    """simulated processes on one directory"""

    name = "processes"
    install = staticmethod(seams.install)
    size = staticmethod(minimise.size)
    candidates = staticmethod(minimise.candidates)

    def __init__(self):
        self.oracle = None

    def start_trial(self):
        self.stop()
        self.oracle = FastOracle()

    def stop(self):
        if self.oracle is not None:
            self.oracle.stop()
            self.oracle = None

    def execute(self, spec, scratch, pristine=False):
        """one run; returns what's known about it as plain data"""
        t = real_time()
        out = {"inconclusive": None, "violations": []}
        c = case.Case(spec, scratch, case.Oracle() if pristine else self.oracle)
        try:
            c.run()
        except Inconclusive as e:
            out["inconclusive"] = str(e)
        out.update(
            violations=c.violations,
            stats=c.stats,
            trace=c.trace.hexdigest(),
            inter=c.inter.hexdigest(),
            recorded=c.recorded,
            command_counts=c.command_counts,
            bad_image=getattr(c, "bad_image", None),
            wall=real_time() - t,
        )
        return out

    @staticmethod
    def specs(pid, seed, trial):
        return plans.specs(pid, seed, trial)

    @staticmethod
    def freeze(spec, result):
        return freeze(spec, result["recorded"], result["bad_image"])


def lane_main(engine, rfd, wfd, scratch):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.makedirs(scratch, exist_ok=True)
    try:
        while True:
            job = recv(rfd)
            if "trial" in job:
                engine.start_trial()
                send(wfd, run_trial(engine, job, scratch))
            else:
                send(wfd, engine.execute(job["spec"], scratch, True))
    except EOFError:
        pass
    except BaseException:
        traceback.print_exc()
    finally:
        engine.stop()
        REAL["_exit"](0)


def run_trial(engine, job, scratch):
    runs = []
    found = None
    g = engine.specs(job["pid"], job["seed"], job["trial"])
    try:
        spec = next(g)
        while True:
            r = engine.execute(spec, scratch)
            summary = {k: r[k] for k in ("inconclusive", "violations", "stats", "trace", "inter", "wall")}
            if not runs:
                summary["spec"] = spec
            runs.append(summary)
            if r["violations"]:
                found = {
                    "spec": spec,
                    "recorded": r["recorded"],
                    "violations": r["violations"],
                    "bad_image": r["bad_image"],
                }
                break
            if real_time() > job["deadline"]:
                break
            spec = g.send(r)
    except StopIteration:
        pass
    return {"trial": job["trial"], "runs": runs, "found": found}


# ----------------------------------------------------------------------------------------
# lanes as seen by the driver
# ----------------------------------------------------------------------------------------
class Lane:
    def __init__(self, engine, number, base):
        self.engine, self.number, self.base = engine, number, base
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.os_pid = REAL["fork"]()
        if self.os_pid == 0:
            os.setpgid(0, 0)
            REAL["close"](w1)
            REAL["close"](r2)
            for lane in Lanes.current.lanes:
                if lane is not self:
                    REAL["close"](lane.rfd)
                    REAL["close"](lane.wfd)
            lane_main(self.engine, r1, w2, os.path.join(self.base, f"lane{self.number}"))
        REAL["close"](r1)
        REAL["close"](w2)
        self.rfd, self.wfd = r2, w1
        self.job = None

    def stop(self):
        try:
            os.killpg(self.os_pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            REAL["kill"](self.os_pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        REAL["close"](self.rfd)
        REAL["close"](self.wfd)
        try:
            REAL["waitpid"](self.os_pid, 0)
        except ChildProcessError:
            pass


class Lanes:
    current = None

    def __init__(self, engine, n, base):
        Lanes.current = self
        self.engine = engine
        self.lanes = []
        for i in range(n):
            self.lanes.append(Lane(engine, i, base))

    def submit(self, lane, job):
        lane.job = job
        send(lane.wfd, job)

    def idle(self):
        return [lane for lane in self.lanes if lane.job is None]

    def busy(self):
        return [lane for lane in self.lanes if lane.job is not None]

    def wait(self, timeout):
        """[(job, result or None)]"""
        busy = self.busy()
        ready, _, _ = select.select([lane.rfd for lane in busy], [], [], timeout)
        out = []
        for lane in busy:
            if lane.rfd in ready:
                job, lane.job = lane.job, None
                try:
                    out.append((job, recv(lane.rfd)))
                except EOFError:
                    lane.stop()
                    lane.start()
                    out.append((job, None))
        return out

    def restart_busy(self):
        for lane in self.busy():
            lane.stop()
            lane.start()

    def stop(self):
        for lane in self.lanes:
            lane.stop()

    def evaluate(self, specs, deadline):
        """results of several specs, in parallel (None for those which weren't completed)"""
        results = [None] * len(specs)
        todo = list(range(len(specs)))
        while todo or self.busy():
            while todo and self.idle():
                i = todo.pop(0)
                self.submit(self.idle()[0], {"spec": specs[i], "i": i})
            if real_time() > deadline:
                self.restart_busy()
                break
            for job, r in self.wait(1.0):
                results[job["i"]] = r
        return results


# ----------------------------------------------------------------------------------------
def first_kind(result):
    return result["violations"][0]["kind"] if result and result["violations"] else None


def freeze(spec, recorded, bad_image):
    """the case with the decisions that were taken, so that nothing is drawn at random"""
    spec = copy.deepcopy(spec)
    for s, rec in zip(spec["steps"], recorded):
        s["decisions"] = rec["root"]
        for n, log in zip(s["nodes"], rec["nodes"]):
            if log is not None:
                n["decisions"] = log
    if bad_image and len(recorded) <= len(spec["steps"]):
        s = spec["steps"][len(recorded) - 1]
        if s.get("power"):
            s["power"]["only"] = bad_image
    return spec


def load_known(verif):
    out = []
    path = os.path.join(verif, "known-findings.txt")
    if os.path.exists(path):
        with REAL["open"](path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    out.append(json.loads(line[len("finding:") :]))
    return out


class Tally:
    def __init__(self):
        self.runs = self.trials = self.inconclusive = 0
        self.first_reason = None
        self.inter = set()
        self.traces = set()
        self.stats = {"faults": {}, "probes": {}}
        self.samples = []
        self.nontrivial = set()
        self.rule = ""
        self.unconfirmed = []

    def add(self, res):
        self.trials += 1
        for i, r in enumerate(res["runs"]):
            self.runs += 1
            if r["inconclusive"]:
                self.inconclusive += 1
                self.first_reason = self.first_reason or r["inconclusive"]
                continue
            self.inter.add(r["inter"])
            self.traces.add(r["trace"])
            st = r["stats"]
            for k, v in st.items():
                if isinstance(v, dict):
                    d = self.stats.setdefault(k, {})
                    for a, b in v.items():
                        d[a] = d.get(a, 0) + b
                else:
                    self.stats[k] = self.stats.get(k, 0) + v
            if st["commands"] and (st["events"] > 3 or st["faults"]):
                self.nontrivial.add(r["trace"])
        if len(self.samples) < 3 and res["runs"] and "spec" in res["runs"][0]:
            self.samples.append({"trial": res["trial"], "case": res["runs"][0]["spec"]})


def search(pid, seed, budget, max_trials, lanes, tally, start=0):
    """returns what was found: the result of the trial with a violation, or None"""
    t0 = real_time()
    deadline = t0 + budget
    nxt = start
    found = []
    while True:
        while not found and nxt < max_trials and real_time() < deadline and lanes.idle():
            lanes.submit(lanes.idle()[0], {"trial": nxt, "pid": pid, "seed": seed, "deadline": deadline})
            nxt += 1
        if not lanes.busy():
            break
        if found and real_time() > found[0][1] + 5:
            lanes.restart_busy()
            break
        if real_time() > deadline + 150:
            tally.inconclusive += len(lanes.busy())
            tally.runs += len(lanes.busy())
            lanes.restart_busy()
            break
        for job, res in lanes.wait(0.5):
            if res is None:
                tally.runs += 1
                tally.inconclusive += 1
                tally.first_reason = tally.first_reason or "a lane has disappeared"
                continue
            tally.add(res)
            if res["found"]:
                found.append((res, real_time()))
    found.sort(key=lambda f: f[0]["trial"])
    return [f[0] for f in found], nxt


def write_replay(path, doc):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL["open"](path, "w") as f:
        json.dump(doc, f, indent=1)


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    try:
        if base and os.statvfs(base).f_bavail * os.statvfs(base).f_frsize < 1 << 30:
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix="ci-sim-", dir=base)


def n_lanes():
    if os.environ.get("VERIF_LANES"):
        return int(os.environ["VERIF_LANES"])
    try:
        return max(1, len(seams._real_affinity(0)))
    except Exception:
        return max(1, seams._real_cpu_count() or 1)


def engine_of(pid):
    if pid == "C11":
        from . import threadsim

        return threadsim.Engine()
    return Processes()


def run_check(pid, tier, seed, budget, max_trials, verif):
    """the check of one property; returns the exit code"""
    t0 = real_time()
    engine = engine_of(pid)
    engine.install()
    gc.collect()
    gc.freeze() if hasattr(gc, "freeze") else None
    base = scratch_dir()
    if pid != "C11":
        seams.warm_up(os.path.join(base, "warm"))
        gc.collect()
    tally = Tally()
    lanes = None
    exit_code = 0
    violations = []
    try:
        lanes = Lanes(engine, n_lanes(), base)
        known = [k for k in load_known(verif) if k["property"] == pid]
        nxt = 0
        seen_known = set()
        stop_at = real_time() + budget
        while True:
            found, nxt = search(pid, seed, max(0.0, stop_at - real_time()), max_trials, lanes, tally, nxt)
            report = None
            for res in found:
                report = confirm(pid, seed, res, lanes, tally)
                if report is None:
                    continue
                k = match_known(known, report)
                if k is not None:
                    seen_known.add(k["id"])
                    report = None
                    continue
                break
            if report is not None:
                violations.append(finish(pid, tier, seed, report, lanes, verif))
                exit_code = 1
                break
            if not found or real_time() >= stop_at or nxt >= max_trials:
                break
        for k in known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    finally:
        if lanes is not None:
            lanes.stop()
        shutil.rmtree(base, ignore_errors=True)
    wall = real_time() - t0
    if exit_code == 0 and (tally.runs - tally.inconclusive < 4 or tally.inconclusive > 0.25 * tally.runs):
        print(f"harness: {tally.inconclusive} of {tally.runs} runs were inconclusive: {tally.first_reason}")
        exit_code = 2
    if tally.unconfirmed:
        print(f"harness: {len(tally.unconfirmed)} not confirmed: {tally.unconfirmed[:3]}")
    from . import evidence

    evidence.write(verif, pid, tier, seed, tally, wall, violations)
    s = tally.stats
    print(
        f"{pid}: {tally.trials} trials, {tally.runs} runs ({tally.inconclusive} inconclusive), "
        f"{len(tally.inter)} interleavings, {sum(s['faults'].values())} faults, {wall:.0f} s"
    )
    for v in violations:
        print(f"VIOLATION property={pid} replay={v['replay']}")
    sys.stdout.flush()
    return exit_code


def match_known(known, report):
    for k in known:
        if k["kind"] == report["kind"] and all(x in report["text"] for x in k["match"]):
            return k
    return None


def confirm(pid, seed, res, lanes, tally):
    """does it happen again, with the oracle's processes pristine?"""
    f = res["found"]
    spec = lanes.engine.freeze(f["spec"], f)
    (r,) = lanes.evaluate([spec], real_time() + 150)
    if first_kind(r) is None:
        tally.unconfirmed.append([res["trial"], f["violations"][0]])
        return None
    return {
        "trial": res["trial"],
        "spec": spec,
        "kind": first_kind(r),
        "text": r["violations"][0]["text"],
        "trace": r["trace"],
    }


def finish(pid, tier, seed, report, lanes, verif):
    """minimise, write the replay file"""
    limit = real_time() + (120 if tier == "quick" else 240)
    original = report
    try:
        report = minimise.minimise(report, lanes, limit)
    except Exception:
        traceback.print_exc()
        report = original
    path = os.path.join(verif, "replays", f"{pid}-{seed}-{report['trial']}.json")
    write_replay(
        path,
        {
            "property": pid,
            "seed": seed,
            "trial": report["trial"],
            "engine": lanes.engine.name,
            "kind": report["kind"],
            "text": report["text"],
            "trace": report["trace"],
            "minimised": report.get("minimised", 0),
            "spec": report["spec"],
        },
    )
    print(f"{report['kind']}: {report['text']}")
    return {"kind": report["kind"], "text": report["text"], "trial": report["trial"], "seed": seed, "replay": path}
