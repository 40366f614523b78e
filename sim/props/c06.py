"""C06: looking at data changes neither files nor objects."""
import os
import pickle
import random

import numpy as np

from .. import breaks, gen, kernel, ops, readers
from ..kernel import Violation, call, must
import sofar

RUNS = {"quick": 1950, "thorough": 16000}
RULE = ("a run stores files, then performs a seeded history of reading, "
        "streaming, verifying, inspecting, listing, comparing, copying and "
        "pickling, partly with failing system calls and invalid objects; "
        "every step is judged by the log of system calls and fingerprints of "
        "all objects; non-trivial if a fault fired, an operation failed, or "
        "mandatory entries were added")
STATE = "hash of the final contents of the simulated disk"
MUTATING = ("openw", "write", "trunc", "rename", "unlink", "mkdir", "rmdir",
            "meta")
OPS = (["read"] * 4 + ["stream"] * 4 + ["verify"] * 5 + ["inspect"] * 3 +
       ["inspect-file"] * 2 + ["info", "info", "list-dims", "get-dim",
                               "get-dim", "equals", "equals", "equals",
                               "copy", "copy", "pickle", "list-conv",
                               "upgrade-list", "repr", "write", "write",
                               "stream-inspect", "stream-dims",
                               "stream-assign", "change-read"])
ISSUES = ["raise", "print", "return", "ignore"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "objects": [gen.gen_spec(rng, small=True)
                        for _ in range(rng.choice([1, 2, 2]))],
            "stems": rng.sample(ops.STEMS, 2), "breaks": [], "steps": []}
    if rng.random() < 0.4:
        plan["breaks"] = [[rng.randrange(2), rng.choice(sorted(breaks.ALL) +
                                                        ["no_mandatory"] * 6),
                           rng.randrange(1 << 30)]
                          for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.choice([3, 5, 8, 12])):
        st = {"do": rng.choice(OPS), "obj": rng.randrange(2),
              "other": rng.randrange(2), "file": rng.randrange(2),
              "seed": rng.randrange(1 << 30), "fault": None}
        if rng.random() < 0.25:
            st["fault"] = {
                "op": rng.choice(["read"] * 4 + ["openr", "openr",
                                                 "read|openr"]),
                "act": rng.choice(["error"] * 5 + ["short", "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM"]),
                "sticky": int(rng.random() < 0.3),
                "where": rng.choice(["/disk", "/rules/", "/conventions/"])}
            if st["fault"]["act"] != "error":
                st["fault"]["sticky"] = 0
        plan["steps"].append(st)
    return plan


def step_fn(env, plan, st, objs, names, full, others):
    """The operation of a step as a function without arguments."""
    rng = random.Random(st["seed"])
    b = objs[st["obj"] % len(objs)]
    c = objs[st["other"] % len(objs)]
    f = st["file"] % len(names)
    name, do = names[f], st["do"]
    s = b.sofa
    if do == "read":
        kind = rng.choice(readers.READERS[:4])
        return lambda: readers.get(kind, name, b.types)
    if do == "stream":
        keys = list(b.types)
        rng.shuffle(keys)

        def stream():
            with sofar.SofaStream(full[f]) as g:
                readers.stream_content(
                    g, {k: b.types[k] for k in keys[:12]})
                return call(lambda: g.Nonexistent)[0]
        return stream
    if do == "stream-inspect":
        def look():
            with sofar.SofaStream(full[f]) as g:
                g.inspect()
        return look
    if do == "stream-dims":
        def dims():
            with sofar.SofaStream(full[f]) as g:
                g.list_dimensions
                return [g.get_dimension(d) for d in "MRN"]
        return dims
    if do == "stream-assign":
        def assign():
            with sofar.SofaStream(full[f]) as g:
                g.ListenerPosition[:] = 7.5
        return assign
    if do == "change-read":
        def change():
            t = sofar.read_sofa(name, False, False)
            for v in vars(t).values():
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" and \
                        v.flags.writeable:
                    v[...] = 3.25
            t.add_attribute("GLOBAL_New", "x")
        return change
    if do == "verify":
        how, mode = rng.choice(ISSUES), rng.choice(["read", "write"])
        st["may_add"] = how != "raise"
        return lambda: s.verify(how, mode)
    if do == "inspect":
        how = rng.choice(ISSUES)
        st["may_add"] = how != "raise"
        return lambda: s.inspect(None, how)
    if do == "inspect-file":
        how = rng.choice(ISSUES)
        st["may_add"] = how != "raise"
        st["text"] = "info.txt"
        return lambda: s.inspect("info.txt", how)
    if do == "info":
        what = rng.choice(["all", "mandatory", "optional", "read only",
                           "data", "ListenerPosition", "nonsense"])
        return lambda: s.info(what)
    if do == "list-dims":
        st["may_add"] = True
        return lambda: s.list_dimensions
    if do == "get-dim":
        st["may_add"] = True
        d = rng.choice("MRNECISXq")
        return lambda: s.get_dimension(d)
    if do == "equals":
        ex = rng.choice([None, None, "DATE", "GLOBAL", "ATTR", "bad"])
        return lambda: sofar.equals(s, c.sofa, rng.random() < 0.5, ex)
    if do == "copy":
        def copy():
            others.append(s.copy())
            for v in vars(others[-1]).values():
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" and \
                        v.flags.writeable:
                    v[...] = 4.5
            call(others[-1].add_attribute, "GLOBAL_New", "x")
        return copy
    if do == "pickle":
        def pick():
            t = pickle.loads(pickle.dumps(s))
            gen.same("pickle", gen.content(s, {}), gen.content(t, {}),
                     "pickled object")
        return pick
    if do == "list-conv":
        return sofar.list_conventions
    if do == "upgrade-list":
        return lambda: s.upgrade_convention()
    if do == "repr":
        return lambda: repr(s)
    if do == "write":
        st["text"] = "out.sofa"
        return lambda: sofar.write_sofa("out", s, rng.choice([0, 4]))
    raise AssertionError(do)


def run(env, plan):
    objs = [must("build", gen.build, sp) for sp in plan["objects"]]
    if not objs:
        return
    names, full = [], []
    for j, stem in enumerate(plan["stems"]):
        names.append(ops.spell(env, stem, "suffix"))
        full.append(os.path.join(env.disk, ops.target(stem)))
        # (the objects themselves have not been verified yet)
        must("write-failed", sofar.write_sofa, names[-1],
             objs[j % len(objs)].sofa.copy())
    for k, kind, seed in plan["breaks"]:
        b = objs[k % len(objs)]
        breaks.apply(b, kind, random.Random(seed))
    others = []
    for n, st in enumerate(plan["steps"]):
        b = objs[st["obj"] % len(objs)]
        fn = step_fn(env, plan, st, objs, names, full, others)
        if st["seed"] % 4 == 0:
            refresh(b, random.Random(st["seed"]))
        if st["fault"]:
            ops.place(env, st["fault"], ops.dry(env, fn),
                      st["fault"]["where"])
        snap, snap_db, snap_tmp = (env.snapshot(), env.snapshot(env.db),
                                   env.snapshot(env.tmp))
        before = [gen.fingerprint(o.sofa) for o in objs]
        start = env.nlog()
        res, v = call(fn)
        nf = env.disarm()
        env.ev(st["do"], res, nf)
        what = f"step {n} {st['do']}"
        if res == "raised":
            env.probe("operation-failed")
        # the disk
        text = st.get("text")
        mut = [e[:3] for e in env.log(start) if e[0] in MUTATING]
        if mut and text is None:
            raise Violation("file-changed", f"{what}: {mut[:5]}")
        after = env.snapshot()
        if text == "info.txt":
            bad = [m for m in mut if not m[1].endswith("/disk/info.txt")]
            if bad:
                raise Violation("file-changed", f"{what}: {bad[:5]}")
        if text:
            snap.pop(text, None)
            after.pop(text, None)
        if after != snap:
            raise Violation("file-changed", f"{what}: disk differs")
        if env.snapshot(env.db) != snap_db or \
                env.snapshot(env.tmp) != snap_tmp:
            raise Violation("file-changed", f"{what}: database or temporary "
                                            "directory differs")
        # the objects
        for k, o in enumerate(objs):
            now = gen.fingerprint(o.sofa)
            if o is b and st.get("may_add") and now != before[k]:
                now = check_added(env, what, o, before[k], now)
            gen.unchanged("object-changed", before[k], now,
                          f"{what}, object {k} of {st['obj']}")
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def refresh(b, rng):
    """Assign some entries again, as a user might give them."""
    s = b.sofa
    for k, v in list(vars(s).items()):
        if isinstance(v, np.ndarray) and rng.random() < 0.5 and \
                k in b.types and not k.startswith("_"):
            v = np.array(v)
            while v.ndim > 2 and v.shape[-1] == 1 and rng.random() < 0.8:
                v = v[..., 0]
            locked, s.protected = s.protected, False
            setattr(s, k, v)
            s.protected = locked


def check_added(env, what, b, before, now):
    """Missing mandatory entries may have been added with defaults."""
    info = gen.conv_info(b.spec["conv"])
    out = dict(now)
    for k in now:
        if k in before or k == "<protected>":
            continue
        default, flags, dims, typ = info.get(k, (None, None, None, None))
        if not flags or "m" not in flags:
            raise Violation("entry-added", f"{what}: added {k}")
        want = gen.canon(default, typ, dims)
        got = gen.canon(getattr(b.sofa, k), typ, dims)
        if want != got:
            raise Violation("entry-added", (
                f"{what}: added {k} as {gen.show(got)}"))
        out.pop(k)
        env.probe("mandatory-added")
    return out
