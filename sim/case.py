"""
A case: a history of simulated processes on one directory, and the judgement of it.

The case is a plain JSON document (and so is its own replay file):

  {"files":  {name: file specification},          input files that are there initially
   "steps":  [step, ...]}

  step = {"do": "run",  "nodes": [node, ...], "seed", "decisions", "observe": p,
          "power": {"n", "seed"}, "restore": {...}}

A node is a process which executes commands one after another; nodes of one step run
concurrently, interleaved by the root scheduler.
"""

import hashlib
import json
import os
import random
import shutil

from . import disk, seams, workload
from .core import INF, REAL, Chooser
from .node import Inconclusive, Node, in_child

ROOT_QUANTA = (1, 2, 4, 10, 30, 100, 400, 2000, INF)
ROOT_WEIGHTS = (3, 3, 4, 6, 8, 8, 6, 3, 1)
DEBRIS = object()


class Violation(Exception):
    def __init__(self, kind, text):
        super().__init__(f"{kind}: {text}")
        self.kind, self.text = kind, text


class Oracle:
    """what's expected, computed by the library in pristine processes; remembered by key"""

    def __init__(self):
        self.results = {}
        self.verdicts = {}

    def need(self, keys):
        todo = {}
        for k in keys:
            kid = workload.key_id(k)
            if kid not in self.results:
                todo[kid] = k
        for kid, k in todo.items():
            self.results[kid] = in_child(workload.evaluate, k, seams.MODULES)

    def get(self, key):
        self.need([key])
        return self.results[workload.key_id(key)]

    def error(self, key):
        if key["k"] == "stale":
            return None
        return self.get(key).get("error")

    def matches(self, path, digest, key):
        """None if the file at this path has the expected content"""
        if key["k"] == "stale":
            return None if digest == key["digest"] else "it isn't the earlier file"
        kid = workload.key_id(key)
        v = (digest, kid)
        if v not in self.verdicts:
            exp = self.get(key)
            if "error" in exp:
                self.verdicts[v] = f"nothing can be expected ({exp['error']})"
            else:
                self.verdicts[v] = workload.compare(path, exp)
        return self.verdicts[v]


class Case:
    def __init__(self, spec, scratch, oracle=None, property_id=None):
        self.spec = spec
        self.scratch = os.path.realpath(scratch)
        self.root = os.path.join(self.scratch, "run")
        self.oracle = oracle or Oracle()
        self.bind = dict(spec["files"])
        self.acceptable = {}  # output path -> list of keys (None: absent)
        self.inputs = {}  # path -> digest
        self.other = {}  # unrelated files: path -> digest
        self.remains = set()  # temporary files of processes that have crashed
        self.debris = False
        self.violations = []
        self.trace = hashlib.sha256()
        self.inter = hashlib.sha256()  # the interleaving alone
        self.stats = {
            "commands": 0,
            "ok": 0,
            "error": 0,
            "crash": 0,
            "faults": {},
            "probes": {},
            "events": 0,
            "images": 0,
            "observations": 0,
            "yield_points": 0,
            "clock_looks": 0,
            "sim_seconds": 0.0,
        }
        self.command_counts = []
        self.contents = {}
        self.held = {}
        self.held_before = {}
        self.recorded = []
        self.sig = {}

    # ------------------------------------------------------------------------------------
    def probe(self, name, n=1):
        p = self.stats["probes"]
        p[name] = p.get(name, 0) + n

    def fault_fired(self, f):
        name = f["k"] + (":" + f["errno"] if "errno" in f else "") + (":" + f["exc"] if "exc" in f else "")
        d = self.stats["faults"]
        d[name] = d.get(name, 0) + 1

    def fail(self, kind, text):
        raise Violation(kind, text)

    # ------------------------------------------------------------------------------------
    def setup(self):
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        for name, fs in self.spec["files"].items():
            self.write_input(name, fs)
        for name, text in self.spec.get("other", {}).items():
            path = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with REAL["open"](path, "wb") as f:
                f.write(text.encode())
            self.other[name] = self.digest(path)
        for name, text in self.spec.get("stale", {}).items():
            # something of the name of an output (or of its temporary file)
            path = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with REAL["open"](path, "wb") as f:
                f.write(text.encode())
            if name.endswith(".tmp"):
                self.remains.add(name)
            else:
                self.acceptable[name] = [{"k": "stale", "digest": self.digest(path)}]
        os.makedirs(os.path.join(self.root, "out"), exist_ok=True)
        self.links()

    def links(self):
        """other names of the directories"""
        for name in ("in", "out"):
            os.symlink(name, os.path.join(self.root, "lnk_" + name))

    def write_input(self, name, fs):
        path = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with REAL["open"](path, "wb") as f:
            f.write(workload.file_bytes(fs, self.scratch))
        self.inputs[name] = self.digest(path)

    def digest(self, path):
        with REAL["open"](path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()

    def listing(self):
        out = []
        for d, _, files in os.walk(self.root):
            for f in files:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    # ------------------------------------------------------------------------------------
    # judging the directory
    # ------------------------------------------------------------------------------------
    def classify(self, path, name, keys):
        """which of the acceptable contents does this file have?"""
        digest = self.digest(path)
        reasons = []
        for k in keys:
            if k is None:
                continue
            why = self.oracle.matches(path, digest, k)
            if why is None:
                return k, None
            reasons.append(why)
        return None, "; or ".join(reasons) or "no such file was to be written"

    def judge(self, when, quick=False, narrow=True):
        """every output file is in one of its acceptable states, nothing else has changed"""
        names = self.listing()
        for name in names:
            path = os.path.join(self.root, name)
            st = os.stat(path)
            sig = (st.st_ino, st.st_size, st.st_mtime_ns)
            if name in self.inputs:
                if self.sig.get(name) != sig:
                    if self.digest(path) != self.inputs[name]:
                        self.fail("input-modified", f"{when}: input file {name} was modified")
                    self.sig[name] = sig
            elif name in self.other:
                if self.sig.get(name) != sig:
                    if self.digest(path) != self.other[name]:
                        self.fail("unrelated-modified", f"{when}: unrelated file {name} was modified")
                    self.sig[name] = sig
            elif name in self.acceptable:
                keys = self.acceptable[name]
                if quick and self.sig.get(name) == sig:
                    continue
                key, why = self.classify(path, name, keys)
                if key is None:
                    self.fail("wrong-output", f"{when}: {name}: {why}")
                self.sig[name] = sig
                if narrow and not quick:
                    self.acceptable[name] = [key]
            elif not quick and not self.debris and name not in self.remains:
                self.fail("stray-file", f"{when}: file {name} is left behind")
        present = set(names)
        for name in list(self.inputs) + list(self.other):
            if name not in present:
                self.fail("input-removed", f"{when}: file {name} was removed")
        for name, keys in self.acceptable.items():
            if name not in present:
                if None not in keys:
                    self.fail("output-missing", f"{when}: {name} doesn't exist")
                if narrow and not quick:
                    self.acceptable[name] = [None]

    # ------------------------------------------------------------------------------------
    # what a command has to do
    # ------------------------------------------------------------------------------------
    def plan(self, c):
        """
        :return: {"outputs": [(path, [keys])], "must_fail": reason or None}
        """
        if c["tool"] == "put":
            return {"outputs": [], "must_fail": None}
        must_fail, may_fail = c.get("invalid"), bool(c.get("may_fail"))
        params = [None]
        if c["tool"] == "spi":
            if c.get("save") and c.get("load"):
                must_fail = "both save and load"
            elif c.get("save") and not c.get("overwrite"):
                if all(k is not None for k in self.acceptable.get(c["save"], [None])):
                    must_fail = "the file of fitting parameters exists"
            if c.get("load"):
                reasons = []
                params = []
                for k in self.acceptable.get(c["load"], [None]):
                    if k is None or k["k"] == "stale":
                        reasons.append("no file of fitting parameters")
                    elif set(c["scales"]) - set(k["scales"]) or k["period"] != c["period"]:
                        reasons.append("the file of fitting parameters lacks a scale")
                    elif c["precip"][0] in self.bind and not workload.same_cells(
                        self.bind[c["precip"][0]], k["src"][0]
                    ):
                        reasons.append("the fitting parameters are for other cells")
                    else:
                        params.append(k)
                if not params:
                    must_fail = must_fail or reasons[0]
                elif reasons:
                    may_fail = True
        pets = [None]
        if c["tool"] == "pci" and c.get("pet") and c["pet"][0] not in self.bind and not must_fail:
            # (some other command has written it)
            pets = [k for k in self.acceptable.get(c["pet"][0], [None])]
            may_fail = may_fail or None in pets
            pets = [k for k in pets if k is not None]
            if not pets:
                must_fail = "no PET file"
        if must_fail:
            outputs = []
            if c.get("partial"):
                # the PET that's needed for others may have been written before
                outputs = [(p, [k]) for p, k in workload.expected_outputs(c, self.bind) if k["k"] == "pet"]
            return {"outputs": outputs, "must_fail": must_fail}
        outputs = {}
        for p in params:
            for q in pets:
                for path, key in workload.expected_outputs(c, self.bind, p, q):
                    outputs.setdefault(path, [])
                    if key not in outputs[path]:
                        outputs[path].append(key)
        errors = []
        for path, keys in outputs.items():
            self.oracle.need(keys)
            if any(self.oracle.error(k) for k in keys):
                errors.append(self.oracle.error(keys[0]))
        return {"outputs": list(outputs.items()), "must_fail": None, "may_fail": may_fail, "errors": errors}

    def merge(self, old, new):
        """what one of two plans says"""
        outputs = {path: list(keys) for path, keys in old["outputs"]}
        for path, keys in new["outputs"]:
            outputs.setdefault(path, []).extend(k for k in keys if k not in outputs.get(path, ()))
        return {
            "outputs": list(outputs.items()),
            "must_fail": old["must_fail"] and new["must_fail"],
            "may_fail": bool(old.get("may_fail") or new.get("may_fail") or old["must_fail"] or new["must_fail"]),
            "errors": list(old.get("errors", ())) + list(new.get("errors", ())),
        }

    def start_command(self, c):
        plan = self.plan(c)
        for path, keys in plan["outputs"]:
            old = self.acceptable.setdefault(path, [None])
            for k in keys:
                if not self.oracle.error(k) and k not in old:
                    old.append(k)
        return plan

    def end_command(self, c, plan, msg, when, alone=True, cpus=1, node=0):
        status, detail = msg["status"], msg.get("detail", "")
        fired = msg["fired"]
        for f in fired:
            self.fault_fired(f)
        if status == "put":
            self.bind[c["name"]] = c["file"]
            self.inputs[c["name"]] = self.digest(os.path.join(self.root, c["name"]))
            return
        self.stats["commands"] += 1
        self.stats[status if status in ("ok", "error") else "error"] += 1
        disturbed = [f for f in fired if f["k"] != "stall_worker"]
        if status == "hang":
            self.fail("hang", f"{when}: {detail}")
        anywhere = any(f["k"] == "parent_exc" for f in fired)
        if anywhere:
            # between any two statements: there are places where nothing can be cleaned up
            self.debris = True
        if msg["leaked"] and not anywhere:
            self.fail("leak", f"{when}: {msg['leaked']} worker processes are left running")
        if self.spec.get("count_workers") and c["tool"] != "put":
            limit = {"single": 1, "all": cpus}.get(c.get("mp"), max(1, cpus - 1))
            peak = msg["counts"].get("peak", 0)
            self.probe(f"workers_{'at' if peak == limit else 'below'}_limit")
            if peak > limit:
                self.fail(
                    "too-many-workers",
                    f"{when}: there were {peak} worker processes at once, but no more than {limit} were asked for",
                )
        if msg.get("held"):
            self.resources(c, msg["held"], when, node, disturbed, status)
        if status == "ok":
            if plan["must_fail"]:
                self.fail("not-rejected", f"{when}: succeeded although {plan['must_fail']}")
            if plan.get("errors"):
                self.fail(
                    "silent-failure", f"{when}: succeeded although the computation fails ({plan['errors'][0]})"
                )
            for path, keys in plan["outputs"]:
                self.acceptable[path] = list(keys) + [
                    k for k in (self.acceptable[path] if not alone else []) if k is not None and k not in keys
                ]
        elif not disturbed and not plan["must_fail"] and not plan.get("may_fail") and not plan.get("errors"):
            self.fail("failure", f"{when}: failed with {detail}")
        elif disturbed:
            self.probe("command_failed_by_fault")
            if any(f["k"].startswith("io_unlink") for f in disturbed):
                self.debris = True
        if status == "ok" and disturbed:
            self.probe("command_survived_fault")
        if status == "error" and not disturbed:
            self.probe("command_rejected")

    def resources(self, c, held, when, node, disturbed, status):
        """
        Nothing stays open, and repetitions don't need more and more.

        Arrays are kept until others replace them.  After an undisturbed history that's always the same ones;
        but a command that fails before it replaces those of the one before it keeps these.
        """
        if held["files"]:
            self.fail("open-files", f"{when}: the process still has open or mapped {', '.join(held['files'][:3])}")
        key = (node, json.dumps({k: v for k, v in c.items() if k != "base"}, sort_keys=True, default=str))
        seen = self.held.setdefault(key, [])
        before, odd = self.held_before.get(node, (0, False))
        odd = odd or bool(disturbed)
        self.held_before[node] = (held["shared"], odd)
        if len(seen) < 2:
            # what's needed by undisturbed executions
            if not disturbed:
                seen.append(held)
        else:
            self.probe("repetitions_measured")
            for k, what in (("descriptors", "open file descriptors"), ("shared", "bytes of shared memory")):
                bound = max(h[k] for h in seen)
                if k == "shared" and odd:
                    if status != "ok":
                        bound += before
                    else:
                        bound = sum(max([h[k] for h in x] or [0]) for y, x in self.held.items() if y[0] == node)
                if held[k] > bound:
                    self.fail(
                        "accumulation",
                        f"{when}: {held[k]} {what} after repeated execution, {' and '.join(str(h[k]) for h in seen)} after the first two",
                    )

    # ------------------------------------------------------------------------------------
    # running
    # ------------------------------------------------------------------------------------
    def run(self):
        try:
            self.setup()
            for i, step in enumerate(self.spec["steps"]):
                self.run_step(i, step)
                self.keep_contents(step)
            self.compare_contents()
        except Violation as v:
            self.violations.append({"kind": v.kind, "text": v.text})
        return self

    def keep_contents(self, step):
        """contents of files, as far as they're to be compared later"""
        for pair in self.spec.get("same", ()):
            for sid, name in pair:
                path = os.path.join(self.root, name)
                if sid == step.get("id") and os.path.exists(path):
                    try:
                        self.contents[(sid, name)] = workload.content(path)
                    except Exception:  # noqa: BLE001
                        # unreadable; left there by a command that has failed (judge has seen to that)
                        continue

    def compare_contents(self):
        """files which have to be the same in every respect, attributes included"""
        for a, b in self.spec.get("same", ()):
            x, y = self.contents.get(tuple(a)), self.contents.get(tuple(b))
            if x is None or y is None:
                continue
            self.probe("files_compared")
            why = workload.difference(x, y)
            if why:
                self.fail("not-the-same", f"{a[1]} after step '{a[0]}' and {b[1]} after step '{b[0]}': {why}")

    def absorb(self, node):
        e = node.end
        if e is None:
            return
        self.trace.update(json.dumps([e["events"], e["log"], e["last"]], default=str).encode())
        self.inter.update(json.dumps([x for x in e["events"]], default=str).encode())
        self.stats["events"] += len(e["events"])
        self.stats["yield_points"] += e["total"]
        if e.get("clock"):
            self.stats["clock_looks"] += e["clock"][0]
            self.stats["sim_seconds"] += abs(e["clock"][1])
        for k, v in e["notes"].items():
            self.probe(k, v)

    def snapshot(self):
        out = {}
        for name in self.listing():
            with REAL["open"](os.path.join(self.root, name), "rb") as f:
                out[name] = f.read()
        return out

    def run_step(self, si, step):
        for n in step["nodes"]:
            for c in n["commands"]:
                if c["tool"] == "put":
                    workload.file_bytes(c["file"], self.scratch)
        base = self.snapshot() if step.get("power") else None
        before = {k: list(v) for k, v in self.acceptable.items()}
        concurrent = len(step["nodes"]) > 1
        nodes = [Node(n, self.root) for n in step["nodes"]]
        chooser = Chooser(step.get("seed", 0), step.get("decisions"))
        at = [0] * len(nodes)  # command which the node executes (or is about to)
        plans = [None] * len(nodes)
        observe = step.get("observe", 0)
        ever = {k: list(v) for k, v in before.items()}
        try:
            active = list(range(len(nodes)))
            while active:
                if concurrent:
                    ni = active[chooser.pick(len(active))]
                    quantum = ROOT_QUANTA[chooser.pick(len(ROOT_QUANTA), ROOT_WEIGHTS)]
                else:
                    ni = active[0]
                    quantum = INF
                    if observe:
                        quantum = (INF, 3, 20, 100, 500)[chooser.pick(5)]
                node = nodes[ni]
                commands = step["nodes"][ni]["commands"]
                if plans[ni] is None and at[ni] < len(commands):
                    c = commands[at[ni]]
                    plans[ni] = self.start_command(c)
                    if concurrent and c.get("save"):
                        # who's loading parameters meanwhile may get these or those
                        for nj in active:
                            other = step["nodes"][nj]["commands"][at[nj]] if plans[nj] else {}
                            if nj != ni and other.get("load") == c["save"]:
                                plans[nj] = self.merge(plans[nj], self.start_command(other))
                    for p, keys in self.acceptable.items():
                        e = ever.setdefault(p, [None])
                        e.extend(k for k in keys if k not in e)
                msg = node.grant(quantum)
                when = f"step {si}, process {ni}, command {at[ni]}"
                if concurrent:
                    self.inter.update(f"{ni},{msg['st']},{msg.get('loc')};".encode())
                if msg["st"] == "cmd_end":
                    c = commands[msg["i"]]
                    self.command_counts.append([si, ni, msg["i"], msg["counts"]])
                    if plans[ni] is None:
                        plans[ni] = self.start_command(c)
                    plan, plans[ni] = plans[ni], None
                    at[ni] = msg["i"] + 1
                    self.end_command(c, plan, msg, when, not concurrent, step["nodes"][ni].get("cpus", 4), (si, ni))
                    if concurrent:
                        self.judge(when, quick=True, narrow=False)
                    else:
                        self.judge(f"{when} ({msg['status']}{': ' + msg['detail'] if msg.get('detail') else ''})")
                elif msg["st"] == "end":
                    active.remove(ni)
                    if msg["last"]["outcome"] == "crash":
                        self.stats["crash"] += 1
                        for f in msg["fired"]:
                            self.fault_fired(f)
                        self.debris = True
                    self.absorb(node)
                else:
                    if observe and chooser.pick(2) == 0:
                        self.stats["observations"] += 1
                        self.judge(f"{when}, observed while it's running", quick=True, narrow=False)
        finally:
            for n in nodes:
                n.destroy()
            self.recorded.append(
                {"root": chooser.log, "nodes": [n.end["log"] if n.end else None for n in nodes]}
            )
        self.judge(f"after step {si}")
        if step.get("power"):
            self.power(si, step, base, ever, nodes[0].end["disk"])

    def power(self, si, step, base, ever, log):
        """states of the disk after a power failure at some instant of this step"""
        rng = random.Random(step["power"]["seed"])
        n = step["power"]["n"]
        self.debris = True
        images = []
        for _ in range(n):
            upto = rng.randint(0, len(log))
            policy = rng.choice(("all", "none", "nodata", "mix", "mix", "mix"))
            images.append((upto, policy, rng.randrange(1 << 30)))
        if "only" in step["power"]:
            images = [tuple(step["power"]["only"])]
        final = None
        for upto, policy, seed in images:
            image = disk.crash_image(base, log, upto, random.Random(seed), policy)
            self.stats["images"] += 1
            self.probe("power_" + policy)
            final = image
            for name, digest in list(self.inputs.items()) + list(self.other.items()):
                if name not in image or hashlib.sha1(image[name]).hexdigest() != digest:
                    self.bad_image = [upto, policy, seed]
                    self.fail("input-lost", f"step {si}: {name} isn't intact after a power failure")
            for name, keys in ever.items():
                if name not in image:
                    if None not in keys:
                        self.bad_image = [upto, policy, seed]
                        self.fail(
                            "output-lost",
                            f"step {si}: power failure after {upto} of {len(log)} disk operations ({policy}): {name} is gone",
                        )
                    continue
                path = os.path.join(self.scratch, "image.nc")
                with REAL["open"](path, "wb") as f:
                    f.write(image[name])
                key, why = self.classify(path, name, keys)
                REAL["unlink"](path)
                if key is None:
                    self.bad_image = [upto, policy, seed]
                    self.fail(
                        "torn-output",
                        f"step {si}: power failure after {upto} of {len(log)} disk operations ({policy}): {name}: {why}",
                    )
        if step["power"].get("restore") and final is not None:
            shutil.rmtree(self.root)
            os.makedirs(os.path.join(self.root, "out"))
            for name, data in final.items():
                path = os.path.join(self.root, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with REAL["open"](path, "wb") as f:
                    f.write(data)
            self.links()
            self.sig = {}
            for name, keys in ever.items():
                self.acceptable[name] = list(keys)
            self.judge(f"step {si}, after the power failure")


def run_case(spec, scratch, oracle=None):
    case = Case(spec, scratch, oracle)
    case.run()
    return case
