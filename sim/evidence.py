"""
The evidence file of a check.
"""

import json
import os

from .core import REAL

LEVELS = {}

REAL_CODE = [
    "climate_indices: both command line programs, compute, indices, eto, utils, lmoments (from /repo's working tree)",
    "xarray, dask (synchronous scheduler), pandas, numpy, scipy, h5netcdf/h5py",
    "fork, copy-on-write memory, shared memory (multiprocessing.Array), pickling of tasks and results",
    "the file system (files of a scratch directory)",
]
STUBS = [
    "scheduling of processes: one runs at a time, chosen by the seeded scheduler",
    "multiprocessing.Pool and ProcessPoolExecutor: task queue, result delivery, supervision of workers",
    "semaphores: blocking is done by the scheduler",
    "system calls on files of the run: buffering, errors, crash points and the disk's durable state",
    "clock, process ids, number of processors, iteration order of sets in the two programs",
]


def write(verif, pid, tier, seed, tally, wall, violations, extra=None):
    s = tally.stats
    hours = max(wall, 1e-6) / 3600.0
    coverage = {
        "evaluations": tally.runs,
        "distinct_nontrivial": len(tally.nontrivial),
        "rule": tally.rule
        or (
            "runs with different traces (all scheduling events with the source line at which a process "
            "stopped, all system calls, all faults), of those in which at least one command was executed "
            "and either worker processes were scheduled or a fault was injected"
        ),
        "samples": tally.samples,
        "trials": tally.trials,
        "runs_per_hour": round(tally.runs / hours),
        "seeds_per_hour": round(tally.trials / hours),
        "distinct_interleavings": len(tally.inter),
        "distinct_traces": len(tally.traces),
        "simulated": {
            "commands": s.get("commands", 0),
            "commands_succeeded": s.get("ok", 0),
            "commands_failed": s.get("error", 0),
            "processes_crashed": s.get("crash", 0),
            "scheduling_events": s.get("events", 0),
            "yield_points": s.get("yield_points", 0),
            "clock_seconds": round(s.get("sim_seconds", 0.0), 2),
            "observations_of_the_directory": s.get("observations", 0),
            "disk_images_after_power_failure": s.get("images", 0),
        },
        "faults_injected": s.get("faults", {}),
        "situations_reached": s.get("probes", {}),
        "inconclusive_runs": tally.inconclusive,
        "unconfirmed": tally.unconfirmed[:5],
        "real_code": REAL_CODE,
        "stubs": STUBS,
    }
    if extra:
        coverage.update(extra)
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "fault_enumeration" if pid in ("C06", "C07", "C08", "C09", "C12") else "exploration",
        "coverage": coverage,
        "assumptions": [
            "the library called for one cell in a fresh process says what is right for that cell",
            "tasks of a pool are taken from its queue in order; a worker runs one task at a time",
            "directory operations reach the disk in order; data not synced may be lost in any part",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "violation_details": violations,
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    path = os.path.join(verif, "evidence", f"{pid}.json")
    with REAL["open"](path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=str)
    REAL["replace"](path + ".tmp", path)
