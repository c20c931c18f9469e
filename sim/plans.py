"""
What's run for each property: cases from gen.py, first undisturbed, and then again with other
schedules and with faults at places which the undisturbed run has shown to exist.
"""

import copy
import random

from . import gen
from .gen import chance

WORKER_KINDS = ("kill_worker", "kill_worker", "worker_exc", "worker_exc", "fork_fail", "array_fail", "stall_worker")
CRASH_KINDS = ("crash_mut", "crash_mut", "crash_io", "crash_line", "torn_write")
INT_KINDS = ("int_wait", "int_wait", "int_io", "int_io", "kill_worker", "worker_exc", "parent_exc")


def reseed(rng, spec, which=None):
    """the same history in other schedules"""
    for si, s in enumerate(spec["steps"]):
        if which is not None and si != which:
            continue
        s["seed"] = rng.randrange(1 << 30)
        for n in s["nodes"]:
            n["seed"] = rng.randrange(1 << 30)
            w = rng.choice(gen.QWEIGHTS)
            n.pop("qweights", None)
            if w:
                n["qweights"] = list(w)
    return spec


def commands_of(spec, result, steps=None):
    """[(step, node, command, counts)] of commands that were executed"""
    out = []
    for si, ni, ci, counts in result["command_counts"]:
        if steps is not None and si not in steps:
            continue
        c = spec["steps"][si]["nodes"][ni]["commands"][ci]
        if c["tool"] != "put" and not c.get("invalid"):
            out.append((si, ni, ci, counts))
    return out


def disturb(rng, spec, result, kinds, steps=None, most=1):
    """the same history with a fault, or None if there's no place for one"""
    spec = copy.deepcopy(spec)
    places = commands_of(spec, result, steps)
    if not places:
        return None
    planned = 0
    for _ in range(rng.choice((1, 1, rng.randint(1, most)))):
        si, ni, ci, counts = rng.choice(places)
        f = gen.fault(rng, kinds, counts, ci)
        if f:
            n = spec["steps"][si]["nodes"][ni]
            n.setdefault("faults", []).append(f)
            planned += 1
    if not planned:
        return None
    if chance(rng, 0.4):
        reseed(rng, spec, si)
    return spec


class Plan:
    def __init__(self, make, variants, vary):
        self.make, self.variants, self.vary = make, variants, vary

    def first(self, rng):
        return self.make(rng)


def other_schedule(rng, spec, result):
    spec = reseed(rng, copy.deepcopy(spec))
    for s in spec["steps"]:
        for n in s["nodes"]:
            n["cpus"] = rng.choice((1, 2, 3, 4, 5, 6, 8, 16, 64))
            n["hashkey"] = rng.randrange(1, 1 << 30)
            n["faults"] = gen.stalls(rng, 1) if len(n["commands"]) == 1 else []
    return spec


def c05(rng, spec, result):
    """a fault in an earlier command, the later ones have to be unaffected"""
    n = len(spec["steps"][0]["nodes"][0]["commands"])
    spec = copy.deepcopy(spec)
    places = [p for p in commands_of(spec, result) if p[2] < n - 1]
    if not places:
        return other_schedule(rng, spec, result)
    si, ni, ci, counts = rng.choice(places)
    kinds = WORKER_KINDS + INT_KINDS + gen.IO_KINDS
    f = gen.fault(rng, kinds, counts, ci)
    if not f:
        return None
    spec["steps"][si]["nodes"][ni].setdefault("faults", []).append(f)
    return spec


def c06(rng, spec, result):
    return disturb(rng, spec, result, WORKER_KINDS, {spec["target"]}, 2)


def c07(rng, spec, result):
    kinds = gen.IO_KINDS
    if any(c.get("load") for n in spec["steps"][spec["target"]]["nodes"] for c in n["commands"]):
        kinds = kinds + ("io_read",) * 5 + ("io_open",) * 2
    return disturb(rng, spec, result, kinds, {spec["target"]}, 1)


def c08(rng, spec, result):
    if chance(rng, 0.45):
        spec = copy.deepcopy(spec)
        s = spec["steps"][spec["target"]]
        s["power"] = {"n": 16, "seed": rng.randrange(1 << 30)}
        if chance(rng, 0.5):
            s["power"]["restore"] = True
        else:
            del spec["steps"][spec["target"] + 1 :]
        if chance(rng, 0.4):
            reseed(rng, spec, spec["target"])
        return spec
    return disturb(rng, spec, result, CRASH_KINDS, {spec["target"]}, 1)


def c09(rng, spec, result):
    return disturb(rng, spec, result, WORKER_KINDS + gen.IO_KINDS * 2 + CRASH_KINDS + INT_KINDS, {spec["target"]}, 2)


def c10(rng, spec, result):
    out = None
    if chance(rng, 0.4):
        out = disturb(rng, spec, result, CRASH_KINDS + gen.IO_KINDS + ("kill_worker",), None, 1)
    return reseed(rng, copy.deepcopy(out or spec))


def c12(rng, spec, result):
    return disturb(rng, spec, result, INT_KINDS, {spec["target"]}, 1)


def c15(rng, spec, result):
    """reading may fail as well, of what's wrong too"""
    if chance(rng, 0.4):
        return other_schedule(rng, spec, result)
    spec = copy.deepcopy(spec)
    places = []
    for si, ni, ci, counts in result["command_counts"]:
        if spec["steps"][si]["nodes"][ni]["commands"][ci].get("invalid"):
            places.append((si, ni, ci, counts))
    if not places:
        return None
    si, ni, ci, counts = rng.choice(places)
    f = gen.fault(rng, ("io_open", "io_read", "io_read", "worker_exc"), counts, ci)
    if not f:
        return None
    spec["steps"][si]["nodes"][ni].setdefault("faults", []).append(f)
    return spec


def c16(rng, spec, result):
    if chance(rng, 0.4):
        return disturb(rng, spec, result, WORKER_KINDS, None, 1)
    spec = reseed(rng, copy.deepcopy(spec))
    for s in spec["steps"]:
        for n in s["nodes"]:
            n["cpus"] = rng.choice((1, 2, 3, 4, 5))
    return spec


def c17(rng, spec, result):
    """failures after the first two cycles, and success after these"""
    spec = copy.deepcopy(spec)
    n = spec["repeats"]
    places = [x for x in result["command_counts"] if x[2] >= 2 * n]
    if not places:
        return None
    planned = []
    for _ in range(rng.randint(1, 3)):
        si, ni, ci, counts = rng.choice(places)
        kinds = WORKER_KINDS + gen.IO_KINDS + ("int_wait", "int_io", "worker_exc")
        f = gen.fault(rng, kinds, counts, ci)
        if f and spec["steps"][si]["nodes"][ni]["commands"][ci].get("load") is None:
            planned.append(f)
    if not planned:
        return None
    node = spec["steps"][0]["nodes"][0]
    node["faults"] = planned
    # (a command that has failed may keep what was there before)
    node["commands"] = node["commands"] + copy.deepcopy(node["commands"][-n:])
    return spec


def c18(rng, spec, result):
    """an earlier command ends in the middle of something"""
    if not spec["later"]:
        return other_schedule(rng, spec, result)
    kinds = CRASH_KINDS * 3 + gen.IO_KINDS + INT_KINDS + WORKER_KINDS
    return disturb(rng, spec, result, kinds, set(range(spec["later"])), 1)


PLANS = {
    "C01": Plan(gen.c01, 1, other_schedule),
    "C02": Plan(gen.c02, 1, other_schedule),
    "C03": Plan(gen.c03, 1, other_schedule),
    "C04": Plan(gen.c04, 1, other_schedule),
    "C05": Plan(gen.c05, 1, c05),
    "C06": Plan(gen.c06, 5, c06),
    "C07": Plan(gen.c07, 6, c07),
    "C08": Plan(gen.c08, 5, c08),
    "C09": Plan(gen.c09, 5, c09),
    "C10": Plan(gen.c10, 2, c10),
    "C12": Plan(gen.c12, 5, c12),
    "C13": Plan(gen.c13, 1, other_schedule),
    "C14": Plan(gen.c14, 1, other_schedule),
    "C15": Plan(gen.c15, 1, c15),
    "C16": Plan(gen.c16, 1, c16),
    "C17": Plan(gen.c17, 1, c17),
    "C18": Plan(gen.c18, 2, c18),
}


def specs(pid, seed, trial):
    """
    A generator of cases; it's sent the result of each of them.
    """
    rng = random.Random(f"{pid}/{seed}/{trial}")
    plan = PLANS[pid]
    spec = plan.first(rng)
    result = yield spec
    if not result or result.get("inconclusive"):
        return
    for _ in range(plan.variants):
        varied = plan.vary(rng, spec, result)
        if varied is not None:
            yield varied
