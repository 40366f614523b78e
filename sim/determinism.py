"""Proof of determinism: many seeds, each executed several times in different
worker processes, worker counts, and under another PYTHONHASHSEED; the event
logs (I/O operations, harness events) of all executions must be identical."""
import importlib
import sys

from . import runner


def prove(pid, n, seed):
    prop = importlib.import_module("sim.props." + pid.lower())
    limit = getattr(prop, "LIMIT", 60)
    plans = [(i, runner.make_plan(prop, pid, seed, i, "quick"))
             for i in range(n)]
    ref = {}
    bad = 0
    total = 0
    for workers, hashseed, order in ((8, "0", 1), (3, "0", -1), (8, "4242", 1),
                                     (5, "17", -1)):
        pool = runner.Pool(pid.lower(), workers, hashseed)
        try:
            for i, plan, r in pool.map(plans[::order], limit):
                total += 1
                key = (r["status"], r["cls"], r["digest"], r.get("inter"),
                       sorted((r.get("fired") or {}).items()))
                if i not in ref:
                    ref[i] = key
                elif ref[i] != key:
                    bad += 1
                    print(f"run {i} differs: {ref[i]} {key} "
                          f"(workers={workers} hashseed={hashseed})")
        finally:
            pool.close()
    print(f"DETERMINISM property={pid} seeds={n} executions={total} "
          f"divergent={bad}")
    return 1 if bad else 0
