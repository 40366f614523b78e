#!/usr/bin/env python3
"""Decide one property of sofar by deterministic simulation.

    check.py C01                     quick or thorough, see VERIF_TIER
    check.py --replay FILE           re-execute a recorded violation
    check.py C01 --determinism N     run N seeds repeatedly, compare logs
"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
if os.path.realpath(sys.prefix) != os.path.dirname(os.path.dirname(PY)) \
        and not os.environ.get("SIM_REEXEC"):
    os.environ["SIM_REEXEC"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(PY, [PY] + sys.argv)
os.environ.pop("SIM_REEXEC", None)
sys.path.insert(1, os.environ.get("SIM_REPO", "/repo"))


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int,
                   default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--runs", type=int)
    p.add_argument("--replay")
    p.add_argument("--determinism", type=int)
    a = p.parse_args()
    from sim import runner
    if a.replay:
        return runner.replay(a.replay)
    if a.determinism:
        from sim import determinism
        return determinism.prove(a.property, a.determinism, a.seed)
    return runner.check(a.property, a.tier, a.seed, a.workers, a.runs)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(130)
