"""C12: conventions change only after a complete, confirmed download."""
import builtins
import json
import os
import shutil

from .. import convdb, gen, ops, site
from ..kernel import Violation, call
from sofar import update_conventions as upd_module
import sofar

RUNS = {"quick": 1800, "thorough": 15000}
RULE = ("a run updates seeded installed conventions from a simulated server "
        "with seeded contents over the real requests library while network "
        "faults, I/O errors, Ctrl-C or a crash strike at seeded positions, "
        "with seeded answers to the question; non-trivial if a fault fired, "
        "the update was not confirmed or a convention was installed")
STATE = "hash of the installed conventions and the outcome"
ANSWERS = ["y"] * 7 + ["n", "no", "", "N", "x", "1", "ny", "never", "EOF",
                       "SIGINT", "q", "yes", "Y", "y ", "yy"]
update_conventions = sofar.update_conventions
if not callable(update_conventions):            # the module of that name
    update_conventions = upd_module.update_conventions


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "style": rng.randrange(1 << 30),
            "hold": [rng.randrange(1000) for _ in range(
                rng.choice([0, 0, 0, 1, 2, 5]))],
            "changes": site.gen_changes(rng, rng.choice([0, 1, 2, 4, 8])),
            "bad": rng.randrange(1000) if rng.random() < 0.12 else None,
            "where": rng.choice(["package"] * 4 + ["disk", "empty",
                                                   "absent"]),
            "nodep": int(rng.random() < 0.1), "calls": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"assume": int(rng.random() < 0.4),
             "answer": rng.choice(ANSWERS), "net": [], "io": None,
             "bad": int(rng.random() < 0.7)}
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            kind = rng.choice(site.FATAL + site.BENIGN * 3 +
                              ["sigint", "crash"])
            at = rng.choice([0, rng.randrange(1000), rng.randrange(1000),
                             999])
            c["net"].append([at, kind, int(rng.random() < 0.15 and kind
                                           not in ("loop", "redirect"))])
        if rng.random() < 0.25:
            c["io"] = {"op": rng.choice(["write", "openw", "write|openw",
                                         "read", "mkdir"]),
                       "act": rng.choice(["error"] * 3 + ["crash-before",
                                                          "sigint"]),
                       "at": rng.randrange(1000), "arg": 0,
                       "err": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                       "sticky": 0, "where": "/tmp/"}
        plan["calls"].append(c)
    return plan


def server_tables(plan):
    return site.evolve(convdb.tables(), plan["changes"])


def setup(env, plan):
    """Install conventions: (directory, installed tables, local files)."""
    tabs = convdb.tables()
    for h in plan["hold"]:
        if tabs:
            tabs.pop(sorted(tabs)[h * len(tabs) // 1000])
    if plan["where"] in ("empty", "absent"):
        tabs = {}
    fs = convdb.files(tabs, True)
    local = {}
    if plan["style"] % 2 and plan["where"] not in ("empty", "absent"):
        rows = convdb.tables()["GeneralTF_2.0"][1]
        local = {"MyLab_0.1.json": convdb.json_dict(rows),
                 "deprecated/MyLab_0.0.json": convdb.json_dict(rows),
                 "README_local.txt": b"mine"}
        local = {k: v if isinstance(v, bytes) else json.dumps(v).encode()
                 for k, v in local.items()}
        for k, v in local.items():
            fs["conventions/" + k] = v.decode()
    env.fresh_db(fs)
    where = os.path.join(env.db, "conventions")
    if plan["where"] != "package":
        new = os.path.join(env.disk, "convs")
        with env.quiet():
            if plan["where"] == "disk":
                shutil.copytree(where, new)
            elif plan["where"] == "empty":
                os.makedirs(new)
        where = new
    dep = os.path.join(where, "deprecated")
    with env.quiet():
        if plan["nodep"] and os.path.isdir(dep):
            shutil.rmtree(dep)
            tabs = {k: v for k, v in tabs.items() if not v[0]}
            local = {k: v for k, v in local.items()
                     if not k.startswith("deprecated/")}
    return where, tabs, local


class Asked:
    def __init__(self, env, answer):
        self.env, self.answer, self.times = env, answer, []

    def __call__(self, prompt=""):
        self.times.append(self.env.nlog())
        self.env.ev("asked")
        if self.answer == "EOF":
            raise EOFError
        if self.answer == "SIGINT":
            raise KeyboardInterrupt
        return self.answer


def run(env, plan):
    where, tabs, local = setup(env, plan)
    srv = site.Site(env, plan["style"])
    offer = server_tables(plan)
    bad_name = None
    if plan["bad"] is not None:
        bad_name = sorted(offer)[plan["bad"] * len(offer) // 1000]
    hist = []
    for n, c in enumerate(plan["calls"]):
        bad = bad_name if c["bad"] else None
        srv.publish(offer, bad)
        hist.append(one(env, srv, c, where, offer, local, bad,
                        f"call {n}"))
    env.state = str((hist, sorted((k, gen.value_print(v)) for k, v in
                                  site.db_bytes(env, where).items())))


def one(env, srv, c, where, offer, local, bad, what):
    before = site.db_bytes(env, where)
    arg = None if where.startswith(env.db) else where
    crash = any(k == "crash" for _, k, _ in c["net"]) or (
        c["io"] and c["io"]["act"].startswith("crash"))
    start = env.nlog()

    def update():
        asked = Asked(env, c["answer"])
        builtins.input = asked
        srv.plan(c["net"])
        res, v = call(update_conventions, arg,
                      **ops.args(assume_yes=bool(c["assume"])))
        return [res, v, asked, srv.requests, srv.fatal]

    if c["io"]:
        ops.place(env, c["io"], ops.dry(env, update), c["io"]["where"])
        start = env.nlog()
    if crash:
        st, val = env.process(lambda: outcome(env, where, start, update()))
        env.disarm()
        nio = sum(e[6] >= 0 for e in env.log(start))
        if st == "crash":
            env.probe("nontrivial")
            # nothing can have been confirmed and downloaded before
            if site.mutations(env, where, start) and \
                    not c["io"]:
                raise Violation("changed-too-early",
                                f"{what}: crash while downloading")
            check_early(env, where, start, before, c, what)
            return "crash"
        if st != "done":
            raise Violation("process", f"{what}: {st} {val}")
        res, text, asked, reqs, fatal, first = val
    else:
        res, text, asked, reqs, fatal, first = outcome(env, where, start,
                                                       update())
        nio = env.disarm()
    env.ev(res, text, asked, len(reqs))
    after = site.db_bytes(env, where)
    if fatal or nio:
        env.probe("nontrivial")
    desc = f"{what}: {res} {text} after {len(reqs)} requests"
    missing = [f for d, f in srv.wanted()
               if not any(r[0].endswith("/" + f) for r in reqs)]
    confirmed = c["assume"] or (asked and c["answer"] == "y")

    def unchanged(cls):
        if after != before:
            ks = [k for k in sorted(set(before) | set(after))
                  if before.get(k) != after.get(k)]
            raise Violation(cls, f"{desc}: changed {ks[:5]}")

    # no change before everything was downloaded and confirmed
    if first is not None:
        late = [r for r in reqs if r[2] > first]
        if late:
            raise Violation("changed-too-early",
                            f"{desc}: changed before {late[0]} was requested")
        if missing:
            raise Violation("changed-too-early",
                            f"{desc}: changed without {missing[:3]}")
        if not confirmed:
            raise Violation("not-confirmed", f"{desc}: answer {c['answer']}")
        if not c["assume"] and asked and asked[0] > first:
            raise Violation("not-confirmed", f"{desc}: changed, then asked")
    if fatal:
        unchanged("changed-despite-failure")
        if res != "raised":
            raise Violation("failure-hidden", f"{desc}: {srv.faults}")
        return "failed"
    if not confirmed:
        unchanged("not-confirmed")
        if asked:
            env.probe("nontrivial")
            env.probe("not confirmed")
        return "no"
    compiled = needed(before, offer)
    if bad:
        unchanged("changed-despite-failure")
        if res != "raised" and not nio:
            raise Violation("failure-hidden", f"{desc}: malformed {bad}")
        env.probe("nontrivial")
        return "malformed"
    if nio:
        return "io"
    if res != "ok":
        raise Violation("not-updated", desc)
    if compiled:
        env.probe("nontrivial")
        env.probe("installed")
    site.check_installed(env, where, offer, local, desc, "not-updated")
    return "updated"


def needed(before, offer):
    """Conventions that differ from the installed ones."""
    out = []
    for name, (dep, rows) in offer.items():
        base = ("deprecated/" if dep else "") + name + ".csv"
        want = site.clean(convdb.csv_text(rows).encode("windows-1252"))
        if site.clean(before.get(base, b"")) != want:
            out.append(name)
    return out


def outcome(env, where, start, v):
    res, val, asked, reqs, fatal = v
    first = site.mutations(env, where, start)
    return [res, f"{type(val).__name__}: {str(val)[:300]}".replace(env.base, "")
            if res == "raised" else str(val), asked.times,
            [list(r) for r in reqs], fatal, first[0][0] if first else None]


def check_early(env, where, start, before, c, what):
    """A crash during the installation is the subject of C13; before it,
    nothing may have changed."""
    after = site.db_bytes(env, where)
    log = env.log(start)
    if not c["assume"] and c["answer"] != "y" and after != before:
        raise Violation("not-confirmed", f"{what}: {len(log)}")
