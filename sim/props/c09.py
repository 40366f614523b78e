"""C09: objects, files, streams and threads do not influence each other."""
import hashlib
import locale
import os
import pickle
import random
import signal
import socket
import sys

import numpy as np

from .. import breaks, gen, ops, readers, threads
from ..kernel import Violation, must, mute
import sofar

RUNS = {"quick": 1260, "thorough": 12000}
RULE = ("a run lets several actors, each with an object, file and stream of "
        "its own (new ones, copies of one object, or read from one file), "
        "work as simulated threads switched at seeded lines or bytecodes of "
        "sofar, or take turns step by step; every outcome is compared with "
        "that of the actor working alone; non-trivial if a switch took place")
STATE = "hash of the outcomes of all actors"
LIMIT = 90
STEPS = (["edit"] * 5 + ["inplace"] * 3 + ["custom"] * 4 + ["break"] * 2 +
         ["undo"] * 2 + ["verify"] * 4 + ["write"] * 3 + ["read"] * 2 +
         ["stream"] * 2 + ["copy", "copy", "pickle", "new", "new", "dims",
                           "equals", "delete", "delete", "add-missing",
                           "upgrade", "forbidden", "unprotect", "list",
                           "inspect", "netcdf"])


def gen_plan(rng, tier, i):
    n = rng.choice([2, 2, 2, 3])
    same = rng.random() < 0.6
    one = rng.choice(gen.CURRENT + gen.WRITABLE)
    convs = [one if same else rng.choice(gen.WRITABLE) for _ in range(n)]
    convs = [c if c in gen.WRITABLE else "GeneralTF_1.0" for c in convs]
    plan = {"env": dict(ops.gen_env(rng), step=0),
            "origin": rng.choice(["new", "new", "copy", "file"]),
            "objects": [gen.gen_spec(rng, [c], small=True) for c in convs],
            "mode": rng.choice(["threads", "threads", "steps"]),
            "opcodes": int(rng.random() < 0.2), "fault": None,
            "scripts": [], "turns": [rng.randrange(n) for _ in range(60)],
            "switches": [],
            "place": rng.choice(["own", "shared", "shared", "relative"])}
    m = rng.choice([2, 3, 5, 8])
    for _ in range(n):
        plan["scripts"].append([
            {"do": rng.choice(STEPS), "seed": rng.randrange(1 << 30)}
            for _ in range(m)])
    if rng.random() < 0.3:
        # everybody does the same
        plan["scripts"] = [list(plan["scripts"][0]) for _ in range(n)]
    for _ in range(rng.choice([3, 8, 20, 60])):
        plan["switches"].append([
            int(rng.choice([10, 100, 1000, 5000]) * rng.random()) + 1,
            rng.randrange(3)])
    plan["storm"] = [rng.choice([3, 20, 100, 400]), rng.randrange(1 << 30)] \
        if rng.random() < 0.3 else None
    plan["targets"] = threads.gen_targets(rng) \
        if rng.random() < 0.5 else []
    if plan["targets"] and not plan["storm"] and rng.random() < 0.7:
        plan["switches"] = []
    if rng.random() < 0.4:
        # verdicts that differ, at the same time
        plan["mode"] = "threads"
        for k in range(n):
            plan["scripts"][k] = [
                {"do": "break", "seed": rng.randrange(1 << 30)}
                for _ in range((k % 2) * rng.choice([1, 3, 5]))] + [
                {"do": rng.choice(["verify", "verify", "verify", "dims",
                                   "new", "write"]),
                 "seed": rng.randrange(1 << 30)}
                for _ in range(rng.choice([2, 4]))]
    if rng.random() < 0.2:
        plan["fault"] = {"op": rng.choice(["write", "read", "openr",
                                           "rename"]),
                         "nth": rng.randrange(1, 40),
                         "err": rng.choice(["EIO", "ENOSPC", "EMFILE"]),
                         "sticky": int(rng.random() < 0.4)}
        plan["place"] = "own"
    return plan


def sha(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


class Actor:
    """Works on an object, a file and a stream of its own."""

    def __init__(self, env, k, b, spec, place="own"):
        self.env, self.k, self.b, self.spec = env, k, b, spec
        self.path = os.path.join(env.disk, f"actor{k}", "x.sofa") \
            if place == "own" else f"both/x{k}.sofa"
        with env.quiet():
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
        if place == "shared":
            self.path = os.path.join(env.disk, self.path)
        self.undo, self.kept, self.out = [], [], []
        self.written = None

    def step(self, st):
        try:
            r = self.do(st["do"], random.Random(st["seed"]), st)
        except Violation:
            raise
        except Exception as e:  # noqa: B902
            r = (type(e).__name__, str(e)[:300])
        # the object after the step
        self.out.append((st["do"], r, sha(sorted(
            (k, v) for k, v in gen.fingerprint(self.b.sofa).items()))))

    def do(self, do, rng, st):
        b = self.b
        s = b.sofa
        if do == "edit":
            ops.apply_edit(b, {"edit": rng.choice(
                ["attr", "data", "custom-attr", "custom-var", "del-custom",
                 "drop", "meta"]), "seed": st["seed"]})
        elif do == "inplace":
            for k in sorted(vars(s)):
                v = vars(s)[k]
                if isinstance(v, np.ndarray) and v.dtype.kind in "fi" and \
                        v.flags.writeable and rng.random() < 0.5:
                    v[...] = rng.randrange(1, 50)
        elif do == "custom":
            x = rng.choice("AB")
            kind = rng.choice("vas")
            if kind == "v":
                s.add_variable("Own" + x, np.full((1, 3), float(self.k)),
                               "double", rng.choice(["IC", "IC", "IM"]))
            elif kind == "s":
                s.add_variable("Text" + x, np.array([f"actor {self.k}"]),
                               "string", "IS")
            else:
                s.add_attribute("GLOBAL_Own" + x, f"actor {self.k}")
        elif do == "break":
            fn = breaks.apply(b, rng.choice(sorted(breaks.ALL)), rng)
            if fn:
                self.undo.append(fn)
        elif do == "undo":
            while self.undo:
                self.undo.pop()()
        elif do == "verify":
            return s.verify(rng.choice(["raise", "return", "ignore"]),
                            rng.choice(["read", "write"]))
        elif do == "write":
            sofar.write_sofa(self.path, s, rng.choice([0, 4]))
            self.written = True
        elif do == "read" and self.written:
            self.undo = []
            b.sofa = sofar.read_sofa(self.path, rng.choice(
                ["auto", False]), False)
        elif do == "netcdf" and self.written:
            return sha(sorted(gen.content(sofar.read_sofa_as_netcdf(
                self.path), {}).items()))
        elif do == "stream" and self.written:
            with sofar.SofaStream(self.path) as f:
                return sha(sorted(readers.stream_content(
                    f, b.types).items()))
        elif do == "copy":
            old = s
            b.sofa = s.copy()
            self.undo = []
            self.kept.append((old, gen.fingerprint(old)))
        elif do == "pickle":
            b.sofa = pickle.loads(pickle.dumps(s))
            self.undo = []
        elif do == "new":
            conv, ver = self.spec["conv"].split("_")
            t = sofar.Sofa(conv, version=ver)
            fp = sha(sorted(gen.fingerprint(t).items()))
            for k in sorted(vars(t)):
                v = vars(t)[k]
                if isinstance(v, np.ndarray) and v.flags.writeable and \
                        v.dtype.kind in "fi":
                    v[...] = 99
            t.add_attribute("GLOBAL_OwnA", "new")
            self.kept.append((t, gen.fingerprint(t)))
            return fp
        elif do == "dims":
            return [s.get_dimension(d) for d in "MRNEC"]
        elif do == "equals":
            return sofar.equals(s, s.copy(), False)
        elif do == "delete":
            ks = sorted(k for k in vars(s) if k.startswith(
                ("Own", "Text", "GLOBAL_Own", "GLOBAL_Comment", "SourceUp",
                 "GLOBAL_History")))
            if ks:
                s.delete(rng.choice(ks))
        elif do == "add-missing":
            s.add_missing(True, rng.random() < 0.5, False)
        elif do == "upgrade":
            return s.upgrade_convention()
        elif do == "forbidden":
            s.GLOBAL_SOFAConventions = "x"
        elif do == "unprotect":
            s.protected = False
            try:
                s.GLOBAL_DateCreated = f"{self.k}"
            finally:
                s.protected = True
        elif do == "list":
            sofar.list_conventions()
        elif do == "inspect":
            s.inspect(None, "return")

    def finish(self):
        for s, fp in self.kept:
            gen.unchanged("copy-changed", fp, gen.fingerprint(s),
                          f"object kept by actor {self.k}")
        if self.written:
            with self.env.quiet():
                r = gen.raw(self.path)
            self.out.append(("file", sha(sorted(gen.raw_content(
                r, {}).items()))))
        return self.out


def actors(env, plan):
    specs = plan["objects"]
    out = []
    if plan["origin"] == "new":
        for k, sp in enumerate(specs):
            out.append(Actor(env, k, must("build", gen.build, sp), sp,
                             plan.get("place", "own")))
        return out
    b = must("build", gen.build, specs[0])
    if plan["origin"] == "file":
        must("write-failed", sofar.write_sofa, env.disk + "/common.sofa",
             b.sofa)
    for k in range(len(specs)):
        c = gen.Built()
        c.spec, c.model, c.types = specs[0], dict(b.model), dict(b.types)
        c.sofa = must("copy", b.sofa.copy) if plan["origin"] == "copy" else \
            must("read-failed", sofar.read_sofa, env.disk + "/common.sofa",
                 "auto", False)
        out.append(Actor(env, k, c, specs[0], plan.get("place", "own")))
    return out


def settings():
    """Settings of the process, which affect everybody."""
    mask = os.umask(0o22)
    os.umask(mask)
    return {"working directory": os.getcwd(), "umask": mask,
            "environment": sorted(os.environ.items()),
            "numpy errors": sorted(np.geterr().items()),
            "numpy printing": repr(sorted(np.get_printoptions().items())),
            "locale": locale.setlocale(locale.LC_ALL),
            "recursion limit": sys.getrecursionlimit(),
            "signals": repr(signal.getsignal(signal.SIGINT)),
            "socket timeout": socket.getdefaulttimeout()}


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def run(env, plan):
    n = min(len(plan["objects"]), len(plan["scripts"]))
    if n < 1:
        return
    plan["objects"] = plan["objects"][:n]
    # every actor alone
    alone = []
    for k in range(n):
        def solo():
            a = actors(env, plan)[k]
            with mute():
                for st in plan["scripts"][k]:
                    a.step(st)
            return a.finish()
        st, v = env.process(solo)
        if st != "done":
            raise Violation("alone-failed", f"actor {k} alone: {st} {v}")
        alone.append(tup(v))
    # all together
    before = settings()
    acts = actors(env, plan)
    skip = None
    if plan["fault"]:
        f = plan["fault"]
        env.arm(f["op"], "error", f["nth"], "/actor0/", f["err"], 0,
                f["sticky"])
        skip = 0
    if plan["mode"] == "steps":
        together(env, plan, acts)
    else:
        threaded(env, plan, acts)
    env.disarm()
    after = settings()
    for k in before:
        if after[k] != before[k]:
            raise Violation("settings", f"the {k} of the process changed: "
                            f"{before[k]!r:.200} -> {after[k]!r:.200}")
    for k, a in enumerate(acts):
        if k == skip:
            continue
        got = tup(a.finish())
        env.ev(k, sha(got))
        if got != alone[k]:
            for x, y in zip(got, alone[k]):
                if x != y:
                    raise Violation("influenced", (
                        f"actor {k}: {x} together with others, {y} alone"))
            raise Violation("influenced", f"actor {k}: {len(got)} outcomes "
                                          f"instead of {len(alone[k])}")
    env.state = sha([tup(a.out) for a in acts])


def together(env, plan, acts):
    left = [list(s) for s in plan["scripts"][:len(acts)]]
    turns = [t % len(acts) for t in plan["turns"]]
    last, trace = None, []
    with mute():
        while any(left):
            k = turns.pop(0) if turns else next(
                i for i, x in enumerate(left) if x)
            if not left[k]:
                continue
            acts[k].step(left[k].pop(0))
            if last is not None and last != k:
                env.probe("nontrivial")
            last = k
            trace.append(k)
    env.interleaving = sha((trace, [[s["do"] for s in x]
                                    for x in plan["scripts"]]))


def threaded(env, plan, acts):
    def task(a, script):
        def fn():
            for st in script:
                a.step(st)
        return fn
    sched = threads.Scheduler(env.package, [
        task(a, sc) for a, sc in zip(acts, plan["scripts"])],
        threads.storm(*plan["storm"]) if plan.get("storm") else
        plan["switches"], bool(plan["opcodes"]), limit=3000000,
        targets=plan.get("targets") or ())
    with mute():
        tasks = sched.run()
    env.interleaving = sched.interleaving() if sched.nswitch else None
    env.probe("thread-switches", sched.nswitch)
    env.ev("threads", sched.n, sched.nswitch, sched.interleaving())
    for t in tasks:
        if isinstance(t.error, Violation):
            raise t.error
        if t.error is not None:
            raise Violation("thread-failed", (
                f"thread {t.idx}: {type(t.error).__name__}: {t.error}"))
