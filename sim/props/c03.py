"""C03: at every instant and after every crash a SOFA file is the complete
old or the complete new one, and no other file is touched."""
import hashlib
import os

from .. import gen, ops, kernel
from ..kernel import Violation, Known, must, call
from ..register import linearizable
import sofar

RUNS = {"quick": 1860, "thorough": 20000}
RULE = ("a run overwrites or creates files in a directory with bystanders; "
        "seeded crashes, I/O errors and interrupts strike inside the "
        "writing, an observer looks at the destination before every I/O "
        "operation, and concurrent writer/reader processes are interleaved "
        "at I/O operations; non-trivial if a fault fired or processes were "
        "interleaved")
STATE = "hash of the final contents of the simulated disk"
F9 = ("F9 write_sofa('HR 0.5m') and write_sofa('HR 0.7m') share one file: "
      "the suffix after the last dot of the name is replaced by .sofa "
      "instead of .sofa being appended")


def gen_plan(rng, tier, i):
    if i == 0:
        return {"env": ops.gen_env(rng), "mode": "F9"}
    mode = rng.choice(["crash"] * 5 + ["error"] * 3 + ["sigint"] +
                      ["concurrent"] * 4)
    plan = {"env": ops.gen_env(rng), "mode": mode,
            "stem": rng.choice(ops.STEMS),
            "spell": rng.choice(ops.SPELL),
            "old": gen.gen_spec(rng, small=True) if rng.random() < 0.75
            else None,
            "junk": rng.random() < 0.1,
            "objects": [gen.gen_spec(rng, small=rng.random() < 0.7, big=True)
                        for _ in range(rng.choice([1, 2]))],
            "comp": rng.choice([0, 4, 4, 9]),
            "pid": rng.choice([None, None, 1]),
            "perm": rng.choice([None, 0o600, 0o640, 0o664]), "steps": []}
    if mode == "concurrent":
        n = rng.choice([2, 2, 3])
        for k in range(n):
            do = "write" if k == 0 else rng.choice(["write", "read", "read"])
            st = {"do": do, "obj": rng.randrange(2), "faults": []}
            if do == "write" and rng.random() < 0.25:
                st["faults"].append(crash_fault(rng))
            plan["steps"].append(st)
        plan["switches"] = [[rng.choice([1, 2, 3, 5, 10, 30, 80]),
                             rng.randrange(3)]
                            for _ in range(rng.choice([1, 2, 4, 8]))]
        return plan
    for _ in range(rng.choice([1, 1, 2, 3])):
        st = {"obj": rng.randrange(2), "faults": []}
        if rng.random() < 0.85:
            if mode == "crash":
                st["faults"].append(crash_fault(rng))
            elif mode == "sigint":
                st["faults"].append({
                    "op": rng.choice(["write", "rename", "openw", "stat"]),
                    "act": "sigint", "at": rng.randrange(1000), "arg": 0,
                    "sticky": 0})
            else:
                f = ops.gen_write_fault(rng)
                if f["op"] == "stat" and plan["spell"] == "symlink":
                    f["op"] = "rename"      # see DESIGN.md, C03
                st["faults"].append(f)
        plan["steps"].append(st)
    return plan


def crash_fault(rng):
    op = rng.choice(["write"] * 5 + ["openw", "close", "rename", "trunc",
                                     "stat", "openw|write|close|rename|meta|"
                                     "unlink|trunc|stat"])
    return {"op": op, "act": rng.choice(["crash-before", "crash-torn",
                                         "crash-after"]),
            "at": rng.choice([0, 999, rng.randrange(1000),
                              rng.randrange(1000), rng.randrange(1000)]),
            "arg": rng.randrange(1000), "sticky": 0}


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()[:16]
    except FileNotFoundError:
        return "absent"


def setup(env, plan):
    stem = plan["stem"]
    name = ops.spell(env, stem, plan["spell"])
    full = os.path.join(env.disk, ops.target(stem))
    d = os.path.dirname(full)
    with env.quiet():
        for fn, data in (("notes.txt", b"hello"), (".hidden", b"x"),
                         (os.path.basename(stem) + "2.sofa", b"not sofa"),
                         (os.path.basename(stem) + ".sofa.bak", b"bak"),
                         (os.path.basename(stem), b"no suffix"),
                         (os.path.basename(stem) + ".sofa.part", b"p")):
            with open(os.path.join(d, fn), "wb") as f:
                f.write(data)
    cur = None
    if plan["old"]:
        o = must("build", gen.build, plan["old"])
        must("write-failed", sofar.write_sofa, name, o.sofa)
        cur = o
    elif plan["junk"]:
        with env.quiet():
            with open(full, "wb") as f:
                f.write(b"an incomplete file of something else" * 9)
    if plan.get("perm") and os.path.isfile(full):
        with env.quiet():
            os.chmod(full, plan["perm"])
    return name, full, cur


def mode(env, full):
    with env.quiet():
        return os.stat(full).st_mode if os.path.exists(full) else None


def others(env, snap, plan):
    out = dict(snap)
    out.pop(ops.target(plan["stem"]), None)
    return out


def sofa_names(snap):
    return sorted(k for k in snap if k.endswith(".sofa"))


def stuck(env, extra, start):
    """Files that could not be removed, because looking for them or removing
    them failed, too."""
    bad = {e[1].rsplit("/", 1)[-1] for e in env.log(start)
           if e[0] in ("stat", "unlink") and e[4] < 0 and e[6] >= 0}
    return not sofa_names(extra) and all(
        k.rsplit("/", 1)[-1] in bad for k in extra)


def run(env, plan):
    if plan["mode"] == "F9":
        return run_f9(env)
    env.pid = plan.get("pid")
    objs = [must("build", gen.build, s) for s in plan["objects"]]
    if not objs:
        return
    name, full, cur = setup(env, plan)
    if plan["mode"] == "concurrent":
        return run_concurrent(env, plan, objs, name, full, cur)
    tgt = ops.target(plan["stem"])
    for st in plan["steps"]:
        b = objs[st["obj"] % len(objs)]
        snap0 = env.snapshot()
        old = snap0.get(tgt, "absent")
        mode0 = mode(env, full)

        def write():
            sofar.write_sofa(name, b.sofa, plan["comp"])
        log = ops.dry(env, write)
        snap_check = env.snapshot()
        if snap_check != snap0:
            raise kernel.Harness("dry run left traces")

        def attempt():
            seen = []

            def look():
                h = sha(full)
                if not seen or seen[-1] != h:
                    seen.append(h)
            for f in st["faults"]:
                ops.place(env, f, log)
            env.observe(look, (1 << 15) - 1)
            res, v = call(write)
            env.disarm()
            look_ok = [h for h in seen if h not in (old, sha_now(env, full))]
            if look_ok:
                raise Violation("torn-visible", (
                    f"another process could see a state of {tgt} which is "
                    f"neither old nor new: {seen}"))
            if res == "raised":
                env.ev("raised", type(v).__name__)
            return res

        start = env.nlog()
        r, val = env.process(attempt)
        snap1 = env.snapshot()
        new = snap1.get(tgt, "absent")
        crashed = r == "crash" or r.startswith("signal")
        env.ev("after", r, val, new == old)
        if r == "done" and val == "ok":
            ops.raw_check(env, plan["stem"], b.model, b.types, "new-content")
            cur = b
        elif new != old:
            if not crashed:
                raise Violation("failed-but-changed", (
                    f"write_sofa raised, but {tgt} changed"))
            ops.raw_check(env, plan["stem"], b.model, b.types,
                          "torn-after-crash")
            env.probe("crash-after-commit")
            cur = b
        elif crashed:
            env.probe("crash-before-commit")
        # (the permissions are unknown if asking for them fails)
        if mode0 is not None and mode(env, full) != mode0 and not any(
                "stat" in f["op"] for f in st["faults"]):
            raise Violation("permissions", f"permissions of {tgt} changed "
                            f"from {mode0:o} to {mode(env, full):o}")
        # bystanders
        o0, o1 = others(env, snap0, plan), others(env, snap1, plan)
        changed = [k for k in o0 if o1.get(k) != o0[k]]
        if changed:
            raise Violation("other-file-changed", f"{changed}")
        extra = sorted(set(o1) - set(o0))
        if extra and not crashed and not stuck(env, extra, start):
            raise Violation("stray-files", f"left behind: {extra}")
        if crashed and sofa_names(o1) != sofa_names(o0):
            raise Violation("stray-sofa-file", f"{extra}")
    # life goes on after the faults
    b = objs[-1]
    if cur is not None:
        c, _ = ops.read_content(env, tgt, cur.types, "auto", "old-unreadable")
        gen.same("old-content", cur.model, c, "file after the faults")
    must("write-after-crash", sofar.write_sofa, name, b.sofa, plan["comp"])
    ops.raw_check(env, plan["stem"], b.model, b.types, "new-content")
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def sha_now(env, full):
    with env.quiet():
        return sha(full)


def run_concurrent(env, plan, objs, name, full, cur):
    tgt = ops.target(plan["stem"])
    snap0 = env.snapshot()
    if cur is None and tgt in snap0:
        return
    types = {}
    for b in objs + ([cur] if cur else []):
        types.update(b.types)
    # contents are compared by a key that identifies the writer
    values = {"initial": cur.model if cur else None}
    for k, b in enumerate(objs):
        values[f"obj{k}"] = b.model
    log = ops.dry(env, lambda: sofar.write_sofa(name, objs[0].sofa,
                                                plan["comp"]))
    fns, arms = [], []
    for st in plan["steps"]:
        b = objs[st["obj"] % len(objs)]

        def writer(b=b):
            inv = env.nlog()
            st_, v = call(sofar.write_sofa, name, b.sofa, plan["comp"])
            return [st_, inv, env.nlog(),
                    None if st_ == "ok" else kernel.describe(v)]

        def reader():
            inv = env.nlog()
            st_, v = call(sofar.read_sofa, tgt, False, False)
            ret = env.nlog()
            if st_ == "raised":
                return ["raised", inv, ret, kernel.describe(v)]
            for key, b in [("initial", cur)] + [
                    (f"obj{k}", o) for k, o in enumerate(objs)]:
                if b and gen.content(v, b.types) == b.model:
                    return ["ok", inv, ret, key]
            return ["ok", inv, ret, "something else"]
        fns.append(writer if st["do"] == "write" else reader)
        arms.append((lambda e, st=st: [ops.place(e, f, log)
                                       for f in st["faults"]])
                    if st["faults"] else None)
    inv0 = env.nlog()
    results = env.concurrent(fns, plan.get("switches", []), "/disk", arms)
    hist, crashed = [], False
    for st, (r, v) in zip(plan["steps"], results):
        obj = f"obj{st['obj'] % len(objs)}"
        key = same_as(values, obj)
        if r == "crash" or r.startswith("signal"):
            crashed = True
            if st["do"] == "write":
                hist.append({"kind": "w", "value": key, "inv": inv0,
                             "ret": None})
            continue
        if r != "done":
            raise Violation("unexpected", f"{r} {v}")
        res, inv, ret, what = v
        if st["do"] == "write":
            if res != "ok":
                raise Violation("concurrent-write-failed", (
                    f"no fault, but a concurrent write failed: {what}"))
            hist.append({"kind": "w", "value": key, "inv": inv, "ret": ret})
        elif res == "raised":
            if cur is not None:
                raise Violation("concurrent-read-failed", (
                    f"a reader failed although the file existed all the "
                    f"time: {what}"))
            hist.append({"kind": "r", "value": "absent", "inv": inv,
                         "ret": ret})
        else:
            if what == "something else":
                raise Violation("torn-visible", "a concurrent reader got "
                                "neither the old nor a new content")
            hist.append({"kind": "r", "value": same_as(values, what),
                         "inv": inv, "ret": ret})
    # the final state is one more read
    final = "absent"
    with env.quiet():
        exists = os.path.exists(full)
    if exists:
        st_, v = call(sofar.read_sofa, tgt, False, False)
        final = "unreadable"
        if st_ == "ok":
            final = "something else"
            for key, b in [("initial", cur)] + [
                    (f"obj{k}", o) for k, o in enumerate(objs)]:
                if b and gen.content(v, b.types) == b.model:
                    final = same_as(values, key)
                    break
    if final in ("unreadable", "something else"):
        raise Violation("torn-after-concurrency", final)
    now = env.nlog()
    hist.append({"kind": "r", "value": final, "inv": now, "ret": now + 1})
    init = "initial" if cur else "absent"
    if not linearizable(same_as(values, init) if cur else "absent", hist):
        raise Violation("not-linearizable", f"history {hist}")
    snap1 = env.snapshot()
    o0, o1 = others(env, snap0, plan), others(env, snap1, plan)
    changed = [k for k in o0 if o1.get(k) != o0[k]]
    if changed:
        raise Violation("other-file-changed", f"{changed}")
    if set(o1) - set(o0) and not crashed:
        raise Violation("stray-files", f"{sorted(set(o1) - set(o0))}")
    env.state = "".join(sorted(snap1.values()))[:64]


def same_as(values, key):
    """First key with the same contents (two objects can be equal)."""
    for k, v in values.items():
        if v is not None and v == values.get(key):
            return k
    return key


def run_f9(env):
    import sofar
    a, b = sofar.Sofa("GeneralFIR"), sofar.Sofa("GeneralFIR")
    a.GLOBAL_Title, b.GLOBAL_Title = "first", "second"
    must("write-failed", sofar.write_sofa, "HR 0.5m", a)
    must("write-failed", sofar.write_sofa, "HR 0.7m", b)
    got = must("read-failed", sofar.read_sofa, "HR 0.5m",
               verbose=False).GLOBAL_Title
    if got == "first":
        return
    if got == "second" and sorted(env.snapshot()) == ["HR 0.sofa"]:
        raise Known(F9)
    raise Violation("other-file-changed", f"{got} {env.snapshot()}")
