"""C13: interrupted updates never damage conventions and always converge."""
import builtins
import json
import os

from .. import convdb, gen, ops, site
from ..kernel import Violation, call
from . import c12
from .c12 import update_conventions

RUNS = {"quick": 900, "thorough": 12000}
RULE = ("a run is a history of rounds in which the simulated server adds, "
        "changes and deprecates conventions, and attempts to update the "
        "installed ones that are hit by crashes (also in the middle of a "
        "write), I/O errors, Ctrl-C and network faults at seeded positions; "
        "non-trivial if an attempt was cut short while it changed files")
STATE = "hash of the directory after each attempt"


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "style": rng.randrange(1 << 30),
            "hold": [rng.randrange(1000) for _ in range(
                rng.choice([0, 0, 0, 1, 2, 5]))],
            "where": rng.choice(["package"] * 4 + ["disk", "empty",
                                                   "absent"]),
            "nodep": int(rng.random() < 0.1), "rounds": []}
    for _ in range(rng.choice([1, 1, 2, 3, 4 if tier == "quick" else 6])):
        r = {"changes": site.gen_changes(rng, rng.choice([1, 2, 4, 8])),
             "style": rng.randrange(1 << 30), "attempts": [],
             "back": int(rng.random() < 0.25)}
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = {"assume": int(rng.random() < 0.7), "net": [], "io": None}
            if rng.random() < 0.12:
                a["net"].append([rng.randrange(1000), rng.choice(
                    site.FATAL + ["sigint", "crash"]), 0])
            elif rng.random() < 0.9:
                act = rng.choice(["crash-before"] * 4 + ["crash-after"] * 2 +
                                 ["crash-torn"] * 4 + ["error"] * 4 +
                                 ["short", "sigint"])
                op = {"crash-torn": ["write"], "short": ["write"]}.get(act, [
                    "write|openw|rename|unlink", "rename", "write", "unlink",
                    "openw", "rename|unlink", "read", "close"])
                a["io"] = {"op": rng.choice(op), "act": act,
                           "at": rng.choice([0, 999, rng.randrange(1000),
                                             rng.randrange(1000)]),
                           "arg": rng.randrange(1 << 20),
                           "err": rng.choice(["ENOSPC", "EIO", "EACCES",
                                              "EPERM", "EROFS"]),
                           "sticky": int(rng.random() < 0.4),
                           "where": "" if rng.random() < 0.8 else "/tmp/"}
                if a["io"]["where"] and a["io"]["err"] in ("EACCES", "EPERM"):
                    # TemporaryDirectory retries these (exponentially often)
                    a["io"]["sticky"] = 0
            r["attempts"].append(a)
        plan["rounds"].append(r)
    return plan


def read_json(env, where):
    return {k: v for k, v in site.db_bytes(env, where).items()
            if k.endswith(".json")}


def run(env, plan):
    where, tabs, local = c12.setup(env, plan)
    srv = site.Site(env, plan["style"])
    offer = last = convdb.tables()
    srv.publish(offer)
    hist = []
    for n, r in enumerate(plan["rounds"]):
        if r.get("back"):
            # the last changes of the conventions are taken back
            back = {k: (dep, last[k][1] if k in last else rows)
                    for k, (dep, rows) in offer.items()}
            last, offer = offer, back
        else:
            last, offer = offer, site.evolve(offer, r["changes"])
        srv.style = r["style"]
        srv.publish(offer)
        for m, a in enumerate(r["attempts"]):
            attempt(env, srv, a, where, offer, f"round {n} attempt {m}")
            hist.append(sorted((k, gen.value_print(v)) for k, v in
                               site.db_bytes(env, where).items()))
    # faults have stopped: one update completes everything
    res, v, asked = update(env, srv, [], where, True)
    if res != "ok":
        raise Violation("not-converged",
                        f"update without faults: {type(v).__name__}: {v}")
    site.check_installed(env, where, offer, local, "after the last update")
    before = site.db_bytes(env, where)
    start = env.nlog()
    res, v, asked = update(env, srv, [], where, False)
    if res != "ok" or asked.times:
        raise Violation("not-idle", "second update: " + (
            f"{type(v).__name__}: {v}" if res != "ok" else "asked"))
    ch = site.mutations(env, where, start)
    if ch or site.db_bytes(env, where) != before:
        raise Violation("not-idle", f"second update changed {ch[:3]}")
    env.state = str(hist)


def update(env, srv, net, where, assume):
    asked = c12.Asked(env, "y")
    builtins.input = asked
    srv.plan(net)
    res, v = call(update_conventions,
                  None if where.startswith(env.db) else where, bool(assume))
    return res, v, asked


def attempt(env, srv, a, where, offer, what):
    before = site.db_bytes(env, where)

    def go():
        res, v, _ = update(env, srv, a["net"], where, a["assume"])
        return [res, type(v).__name__]

    sub = os.path.relpath(where, env.base)
    if a["io"]:
        ops.place(env, a["io"], ops.dry(env, go), a["io"]["where"] or
                  "/" + sub + "/")
    start = env.nlog()
    st, val = env.process(go)
    env.disarm()
    if st not in ("done", "crash"):
        raise Violation("process", f"{what}: {st} {val}")
    env.ev(st, val)
    cut = st == "crash" or val[0] != "ok"
    if cut and site.mutations(env, where, start):
        env.probe("nontrivial")
        env.probe("cut short while changing")
    judge(env, where, before, offer, f"{what} ({st} {val})")


def judge(env, where, before, offer, what):
    """Every convention is the complete old or the complete new one."""
    after = site.db_bytes(env, where)
    new = {("deprecated/" if dep else "") + n + ".json":
           convdb.json_dict(rows) for n, (dep, rows) in offer.items()}
    for k in sorted(after):
        if not k.endswith(".json") or after[k] == before.get(k):
            continue
        d = site.parse(after[k])
        if d is None:
            raise Violation("damaged", f"{what}: {k} is no JSON "
                            f"({len(after[k])} bytes)")
        if k not in new or d != new[k]:
            raise Violation("damaged", f"{what}: {k} has a wrong content")
    for k in sorted(before):
        if k.endswith(".json") and k not in after and \
                "deprecated/" + k not in after:
            raise Violation("lost", f"{what}: {k} disappeared")
