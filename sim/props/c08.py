"""C08: a SofaStream gives what a complete read gives."""
import os
import random

import numpy as np
from netCDF4 import Dataset

from .. import gen, ops, readers, threads
from ..kernel import Violation, call, must, mute
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run stores files and sends a seeded sequence of requests to "
        "several streams that are open at the same time, or lets simulated "
        "threads send them, switched at seeded code positions; non-trivial "
        "if a switch took place, a fault fired or several streams were open")
STATE = "hash of the final contents of the simulated disk"
ASSUMPTIONS = ["netCDF4 variables that are kept beyond the with statement "
               "are outside of sofar's control and not judged"]
UNKNOWN = ["GLOBAL_Nonexistent", "Nonexistent", "ListenerPositio",
           "ListenerPosition_Foo", "ListenerPositionX", "Data_Foo",
           "Data_Foo_Units", "GLOBAL_ListenerPosition", "Listener",
           "GLOBAL_", "Data_IR_Foo", "SourcePosition_Units2", "Position",
           "GLOBAL_Titl", "GLOBAL_TitleX", "listenerposition", "Foo_Units",
           "GLOBAL_title", "ReceiverPosition_type", "Data_",
           "Title_Units", "SOFAConventions_Type", "DataType_Foo",
           "Title_Title", "License_ListenerPosition"]


def gen_plan(rng, tier, i):
    n = rng.choice([1, 2, 2, 3])
    plan = {"env": ops.gen_env(rng),
            "objects": [gen.gen_spec(rng, small=True, big=True)
                        for _ in range(n)],
            "stems": rng.sample(ops.STEMS, 3), "comp": rng.choice([0, 4]),
            "mode": rng.choice(["seq", "seq", "threads-shared",
                                "threads-own", "threads-mix"]),
            "seed": rng.randrange(1 << 30),
            "foreign": rng.choice([""] * 6 + ["FIR-X", "Impulse", "tf"]),
            "harmonic": rng.choice(["", "", "", "R", "E", "RE"])}
    if rng.random() < 0.3:
        plan["objects"].append(dict(plan["objects"][0],
                                    seed=rng.randrange(1 << 30)))
    if plan["mode"] == "seq":
        plan["steps"] = []
        for _ in range(rng.choice([4, 8, 14])):
            st = {"do": rng.choice(
                ["open", "open", "open", "get", "get", "get", "get", "get",
                 "all", "slice", "dim", "dims", "inspect", "unknown",
                 "unknown", "close", "close", "exc", "use-closed",
                 "unopened", "replace", "missing"]),
                "s": rng.randrange(4), "f": rng.randrange(3),
                "seed": rng.randrange(1 << 30), "fault": None}
            if rng.random() < 0.4:
                st["fault"] = {"op": "read", "act": rng.choice(
                    ["error", "error", "short", "eintr"]),
                    "at": rng.randrange(1000), "err": "EIO",
                    "arg": rng.randrange(1000), "sticky": 0}
            plan["steps"].append(st)
    else:
        plan["threads"] = [[[rng.choice(["get", "get", "get", "get", "slice",
                                         "dim", "unknown", "inspect"]),
                             rng.randrange(1 << 30)]
                            for _ in range(rng.choice([2, 4, 7]))]
                           for _ in range(rng.choice([2, 2, 3]))]
        plan["switches"] = [[rng.choice([1, 2, 3, 5, 9, 17, 40]),
                             rng.randrange(3)]
                            for _ in range(rng.choice([3, 8, 20]))]
        plan["storm"] = [rng.choice([1, 3, 20]), rng.randrange(1 << 30)] \
            if rng.random() < 0.3 else None
        plan["targets"] = threads.gen_targets(rng) \
            if rng.random() < 0.5 else []
        if plan["targets"] and not plan["storm"] and rng.random() < 0.7:
            plan["switches"] = []
        plan["opcodes"] = int(rng.random() < 0.3)
    return plan


class Oops(Exception):
    pass


class File:
    def __init__(self, env, b, stem, comp, foreign="", harmonic=""):
        self.env, self.stem, self.foreign = env, stem, foreign
        self.harmonic = [{"R": "ReceiverPosition", "E": "EmitterPosition"}[x]
                         for x in harmonic or ""]
        self.path = os.path.join(env.disk, ops.target(stem))
        ops.spell(env, stem, "plain")
        self.store(b, comp)

    def store(self, b, comp):
        must("write-failed", sofar.write_sofa, self.path, b.sofa, comp)
        self.model, self.types = dict(b.model), dict(b.types)
        with self.env.quiet():
            # changed by another program
            if self.foreign:
                with Dataset(self.path, "r+") as file:
                    file.setncattr("DataType", self.foreign)
                self.model["GLOBAL_DataType"] = ("attr", self.foreign)
            for k in self.harmonic:
                with Dataset(self.path, "r+") as file:
                    file[k].setncattr("Type", "spherical harmonics")
                self.model[k + "_Type"] = ("attr", "spherical harmonics")
            r = gen.raw(self.path)
        self.dims = dict(r["dims"])
        self.raw = {gen.sofar_name(v): x for v, x in r["vars"].items()}
        gen.same("stored-content", self.model,
                 gen.raw_content(r, self.types), "file")

    def view(self):
        """What a stream that is opened now has to give."""
        return {"model": self.model, "types": self.types, "dims": self.dims,
                "raw": self.raw}


def request(s, v, do, seed):
    """Send one request to the stream s and judge the answer."""
    rng = random.Random(seed)
    names = sorted(v["model"])
    if do == "get":
        k = rng.choice(names)
        check_value(s, v, k)
    elif do == "all":
        rng.shuffle(names)
        for k in names:
            check_value(s, v, k)
    elif do == "slice":
        k = rng.choice(sorted(k for k in v["raw"]
                              if v["raw"][k][1] != "|S1"))
        data = v["raw"][k][2]
        var = getattr(s, k)
        idx = []
        for n in data.shape:
            idx.append(rng.choice([slice(None), slice(0, 1), n - 1,
                                   slice(None, None, 2), slice(n // 2, n)]))
        got = np.asarray(var[tuple(idx)])
        want = data[tuple(idx)]
        if got.shape != want.shape or not np.array_equal(
                got, want, equal_nan=True):
            raise Violation("slice", f"{k}{idx}: got {got} instead of {want}"
                            [:400])
    elif do == "dim":
        for d, n in v["dims"].items():
            if s.get_dimension(d) != n:
                raise Violation("dimension", f"{d} is {s.get_dimension(d)} "
                                             f"instead of {n}")
        for d in "XZm":
            if d not in v["dims"]:
                try:
                    n = s.get_dimension(d)
                except ValueError:
                    continue
                raise Violation("dimension", f"{d} is {n} but not in file")
    elif do == "unknown":
        k = rng.choice(UNKNOWN)
        if k in v["model"]:
            return
        try:
            x = getattr(s, k)
        except AttributeError:
            return
        raise Violation("unknown-name", f"{k} gave {x!r:.300}")


def check_value(s, v, k):
    x = getattr(s, k)
    typ, dims = v["types"][k]
    if typ != "attribute":
        if gen.sofar_name(getattr(x, "name", "")) != k:
            raise Violation("wrong-name", f"{k}: got {x!r:.300}")
        if v["raw"][k][0] != tuple(x.dimensions) or \
                v["raw"][k][2].shape != tuple(x.shape):
            raise Violation("wrong-shape", f"{k}: {x.dimensions} {x.shape}")
    got = readers.stream_value(x, v["types"][k])
    if got != v["model"][k]:
        raise Violation("wrong-value", (
            f"{k}: got {gen.show(got)} instead of "
            f"{gen.show(v['model'][k])}"))


def check_printed(s, v, what):
    """list_dimensions and inspect."""
    with mute() as (out, _):
        if what == "dims":
            s.list_dimensions
        else:
            s.inspect()
    text = out.getvalue()
    if what == "dims":
        for d, n in v["dims"].items():
            if f"{d} = {n} " not in text:
                raise Violation("listing", f"no {d} = {n} in {text}")
        for d, who, k in (("R", "receiver", "ReceiverPosition_Type"),
                          ("E", "emitter", "EmitterPosition_Type")):
            line = [x for x in text.split("\n") if x.startswith(d + " = ")]
            kind = v["model"].get(k, ("", ""))[1]
            if line and (who not in line[0] or ("harmonic" in line[0]) !=
                         ("harmonic" in kind)):
                raise Violation("listing", f"{line} but {k} is {kind}")
        return
    lines = text.split("\n")
    for k in v["model"]:
        val = v["model"][k]
        if val[0] == "attr":
            if f"{k} : {val[1]}".split("\n")[0] not in lines:
                raise Violation("listing", f"no line for {k} in {text}")
        elif not any(x.startswith(k + " : ") for x in lines):
            raise Violation("listing", f"no line for {k} in {text}")


def run(env, plan):
    objs = [must("build", gen.build, sp) for sp in plan["objects"]]
    if not objs:
        return
    files = [File(env, objs[j % len(objs)], stem, plan["comp"],
                  plan.get("foreign"), plan.get("harmonic"))
             for j, stem in enumerate(plan["stems"])]
    env.fds0 = env.open_fds("/disk")
    if plan["mode"] == "seq":
        sequential(env, plan, objs, files)
    else:
        threaded(env, plan, files)
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def sequential(env, plan, objs, files):
    slots = {}          # slot -> [stream, view or None if closed]
    lib = False         # HDF5 may leak handles if opening fails

    def fds(step):
        left = env.open_fds("/disk") - env.fds0
        # (HDF5 shares the handle of a file that is opened twice)
        n = len({id(x[1]["raw"]) for x in slots.values()
                 if x[1] is not None})
        if left != n and not lib:
            raise Violation("handles", f"{step}: {left} handles are open for "
                                       f"{n} open streams")
    for n, st in enumerate(plan["steps"]):
        do, k = st["do"], st["s"]
        f = files[st["f"] % len(files)]
        cur = slots.get(k)
        what = f"step {n} {do}"
        if sum(1 for x in slots.values() if x[1] is not None) > 1:
            env.probe("nontrivial")
            env.probe("several-open")
        armed = None
        if st["fault"] and cur and cur[1] is not None and do in (
                "get", "all", "slice", "dim") and not any(
                x is not cur and x[1] is not None and
                x[1]["raw"] is cur[1]["raw"] for x in slots.values()):
            armed = st["fault"]
            env.arm("read", armed["act"], 1 + armed["at"] * 2 // 1000,
                    "/disk", armed["err"], armed["arg"])
        if do == "open":
            if cur and cur[1] is not None:
                must("close-failed", cur[0].__exit__, None, None, None)
                cur[1] = None
            if cur is None or st["seed"] % 2:
                cur = slots[k] = [must("open-failed", sofar.SofaStream,
                                       f.path), None, f]
            got = must("open-failed", cur[0].__enter__)
            if got is not cur[0]:
                raise Violation("enter", "with ... as does not give the "
                                         "stream")
            cur[1] = cur[2].view()
            # (the file may have got the number of one closed before)
            for x in list(slots.values()):
                if x[1] is None and st["seed"] % 3:
                    env.probe("closed-stream-used")
                    unusable(what, x[0], cur[2], st["seed"])
        elif do in ("get", "all", "slice", "dim", "unknown"):
            if cur is None or cur[1] is None:
                env.disarm()
                continue
            res, v = call(request, cur[0], cur[1], do, st["seed"])
            nf = env.disarm()
            if res == "raised":
                if not (nf and armed["act"] == "error"):
                    raise Violation("request-failed", (
                        f"{what}: {type(v).__name__}: {v}"))
                env.probe("error-reported")
                # HDF5 itself answers from a broken buffer if the file stays
                # open, but opening it again has to help
                must("close-failed", cur[0].__exit__, None, None, None)
                must("open-failed", cur[0].__enter__)
                cur[1] = cur[2].view()
                must("not-recovered", request, cur[0], cur[1], do,
                     st["seed"])
        elif do in ("dims", "inspect"):
            if cur is None or cur[1] is None:
                continue
            must("listing", check_printed, cur[0], cur[1], do)
        elif do == "close":
            if cur is None or cur[1] is None:
                opened = [x for x in slots.values() if x[1] is not None]
                if not opened:
                    continue
                cur = opened[st["seed"] % len(opened)]
            must("close-failed", cur[0].__exit__, None, None, None)
            cur[1] = None
        elif do == "exc":
            # the stream is closed if an exception leaves the block
            exc = random.Random(st["seed"] + 1).choice(
                [Oops, AttributeError, "unknown", ValueError, "dimension",
                 KeyboardInterrupt, SystemExit, GeneratorExit, OSError,
                 RuntimeError, KeyError, StopIteration, IndexError])
            keep = must("open", sofar.SofaStream, f.path)

            def block():
                with keep as s:
                    request(s, f.view(), "get", st["seed"])
                    if exc == "unknown":
                        s.Nonexistent_Foo
                    elif exc == "dimension":
                        s.get_dimension("Z")
                    else:
                        raise exc("x")
            try:
                res, v = call(block)
            except BaseException as e:  # noqa: B902
                if isinstance(e, Violation):
                    raise
                res, v = "raised", e
            if res != "raised" or not isinstance(v, {
                    "unknown": AttributeError, "dimension": ValueError}.get(
                        exc, exc)):
                raise Violation("exception-lost", f"{what}: {res} {v!r}")
            v = None
            unusable(what, keep, f, st["seed"])
        elif do == "use-closed":
            if cur is None or cur[1] is not None:
                closed = [x for x in slots.values() if x[1] is None]
                if not closed:
                    continue
                cur = closed[st["seed"] % len(closed)]
            env.probe("closed-stream-used")
            unusable(what, cur[0], f, st["seed"])
        elif do == "unopened":
            unusable(what, must("open", sofar.SofaStream, f.path), f,
                     st["seed"])
        elif do == "replace":
            b = objs[st["seed"] % len(objs)]
            f.store(b, plan["comp"])
            env.probe("file-replaced")
        elif do == "missing":
            s = must("open", sofar.SofaStream,
                     os.path.join(env.disk, "missing.sofa"))
            res, v = call(s.__enter__)
            if res == "ok":
                raise Violation("missing-file", "opened a missing file")
            unusable(what, s, f, st["seed"])
        env.disarm()
        env.ev(do)
        fds(what)
    for s, view, f in slots.values():
        if view is not None:
            must("request-failed", request, s, view, "all", 1)
    for x in slots.values():
        if x[1] is not None:
            must("close-failed", x[0].__exit__, None, None, None)
            x[1] = None
            unusable("end", x[0], x[2], 0)
        fds("closing all")


def unusable(what, s, f, seed):
    """A stream that is not open gives no data."""
    rng = random.Random(seed)
    names = rng.sample(sorted(f.model), 3)
    for k in names + ["Nonexistent"]:
        res, v = call(getattr, s, k)
        if res == "ok":
            raise Violation("closed-data", (
                f"{what}: {k} of a stream that is not open gave {v!r:.200}"))
    for m in (lambda: s.get_dimension("M"), lambda: s.list_dimensions,
              s.inspect):
        res, v = call(m)
        if res == "ok":
            raise Violation("closed-data", f"{what}: a stream that is not "
                                           f"open gave {v!r:.200}")


def threaded(env, plan, files):
    mode = plan["mode"]
    scripts = plan["threads"]
    if not scripts:
        return
    shared = files[0]
    stream = must("open", sofar.SofaStream, shared.path)
    if mode != "threads-own":
        must("open-failed", stream.__enter__)

    def task(t, script):
        def requests(s, v):
            for do, seed in script:
                if do == "inspect":
                    s.inspect()
                else:
                    request(s, v, do, seed)

        def fn():
            if mode == "threads-shared" or (mode == "threads-mix" and
                                            t == 0):
                requests(stream, shared.view())
                return
            f = files[t % len(files)]
            for _ in range(2):
                with sofar.SofaStream(f.path) as s:
                    requests(s, f.view())
        return fn
    sched = threads.Scheduler(env.package, [
        task(t, sc) for t, sc in enumerate(scripts)],
        threads.storm(*plan["storm"]) if plan.get("storm") else
        plan["switches"], bool(plan["opcodes"]),
        targets=plan.get("targets") or ())
    with mute():
        tasks = sched.run()
    env.interleaving = sched.interleaving() if sched.nswitch else None
    env.probe("thread-switches", sched.nswitch)
    env.ev("threads", sched.n, sched.nswitch, sched.interleaving())
    for t in tasks:
        if isinstance(t.error, Violation):
            raise t.error
        if t.error is not None:
            raise Violation("thread-failed", (
                f"thread {t.idx}: {type(t.error).__name__}: {t.error}"))
        t.error = None
    if mode != "threads-own":
        must("request-failed", request, stream, shared.view(), "all", 1)
        must("close-failed", stream.__exit__, None, None, None)
    left = env.open_fds("/disk") - env.fds0
    if left:
        raise Violation("handles", f"{left} handles are still open")
