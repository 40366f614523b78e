"""C02: an I/O error while saving is never acknowledged; the object stays as
it was and saving again works once the error is gone."""
import os

from .. import gen, ops
from ..kernel import Violation, must, call, mute
import sofar

RUNS = {"quick": 1950, "thorough": 20000}
RULE = ("a run saves an object (write_sofa or inspect(file)) over nothing or "
        "an older file while seeded I/O errors (single, repeated, disk full "
        "at a byte budget) strike at seeded positions of its I/O sequence, "
        "then retries without faults; non-trivial if a fault fired")
ASSUMPTIONS = ["errors returned by close() of an HDF5 file are not injected: "
               "the HDF5 library itself aborts on them"]


def gen_plan(rng, tier, i):
    what = "inspect" if rng.random() < 0.12 else "write"
    plan = {"env": ops.gen_env(rng), "what": what,
            "old": gen.gen_spec(rng, small=True) if rng.random() < 0.6
            else None,
            "new": gen.gen_spec(rng, small=rng.random() < 0.6, big=True),
            "stem": rng.choice(ops.STEMS), "spell": rng.choice(ops.SPELL),
            "comp": rng.choice([0, 4, 4, 9]),
            "rounds": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = {"faults": [ops.gen_write_fault(rng) for _ in range(
            rng.choice([1, 1, 1, 2]))], "space": None}
        if rng.random() < 0.25:
            r["faults"] = []
            r["space"] = rng.randrange(1000)
        if what == "inspect":
            for f in r["faults"]:
                f["op"] = rng.choice(["openw", "write", "write", "close"])
                f["sticky"] = 0
        for f in r["faults"]:
            if f["op"] == "stat" and plan["spell"] == "symlink":
                f["op"] = "rename"      # see DESIGN.md, C03
        r["proc"] = rng.random() < 0.5
        plan["rounds"].append(r)
    return plan


def run(env, plan):
    b = must("build", gen.build, plan["new"])
    stem = plan["stem"]
    name = ops.spell(env, stem, plan["spell"])
    if plan["what"] == "inspect":
        return run_inspect(env, plan, b)
    if plan["old"]:
        o = must("build", gen.build, plan["old"])
        must("write-failed", sofar.write_sofa, name, o.sofa)

    def write():
        sofar.write_sofa(name, b.sofa, plan["comp"])

    for rnd in plan["rounds"]:
        log = ops.dry(env, write)
        before = gen.fingerprint(b.sofa)

        def arm():
            for f in rnd["faults"]:
                ops.place(env, f, log)
            if rnd["space"] is not None:
                total = sum(e[3] for e in log if e[0] == "write")
                env.L.sim_space(total * rnd["space"] // 1000)

        def attempt():
            arm()
            st, v = call(write)
            n = env.disarm()
            if rnd["space"] is not None and st == "raised":
                env.note_fault("error:write:ENOSPC(disk full)")
            env.ev("attempt", st, n)
            gen.unchanged("object-changed", before, gen.fingerprint(b.sofa),
                          "object after write with I/O error")
            if st == "ok":
                ops.raw_check(env, stem, b.model, b.types,
                              "acknowledged-despite-error")
                return "ok"
            if isinstance(v, (KeyboardInterrupt, SystemExit)):
                raise Violation("wrong-exception", repr(v))
            env.probe("error-reported")
            if rnd["proc"]:
                return "raised"
            # the same process carries on
            must("retry-failed", write)
            ops.raw_check(env, stem, b.model, b.types, "retry-content")
            return "retried"

        res, val = env.process(attempt)
        if res.startswith("signal"):
            env.probe("library-crash")      # counts as a process crash
        elif res != "done":
            raise Violation("unexpected", f"{res} {val}")
        if res == "done" and val == "ok":
            check_read(env, stem, b, "acknowledged-despite-error")
        # a new process, or this one, which saw nothing of the error
        must("retry-failed", write)
        ops.raw_check(env, stem, b.model, b.types, "retry-content")
    check_read(env, stem, b, "retry-content")


def check_read(env, stem, b, cls):
    def later():
        content, _ = ops.read_content(env, ops.target(stem), b.types,
                                      "auto", cls)
        gen.same(cls, b.model, content, f"read of {stem}")
    res, val = env.process(later)
    if res != "done":
        raise Violation(cls, f"{res} {val}")


def run_inspect(env, plan, b):
    path = os.path.join(env.disk, "info.txt")

    def text():
        with mute() as (out, _):
            b.sofa.inspect(None, "ignore")
        return out.getvalue()

    def write():
        b.sofa.inspect(path, "ignore")
    try:
        want = text()
    except AttributeError:
        return      # single strings, see DESIGN.md (not this property)
    for rnd in plan["rounds"]:
        log = ops.dry(env, write)
        before = gen.fingerprint(b.sofa)
        for f in rnd["faults"]:
            ops.place(env, f, log)
        if rnd["space"] is not None:
            total = sum(e[3] for e in log if e[0] == "write")
            env.L.sim_space(total * rnd["space"] // 1000)
        st, v = call(write)
        env.disarm()
        gen.unchanged("object-changed", before, gen.fingerprint(b.sofa),
                      "object after inspect with I/O error")
        if st == "ok":
            check_text(env, path, want, "acknowledged-despite-error")
        else:
            env.probe("error-reported")
        must("retry-failed", write)
        check_text(env, path, want, "retry-content")


def check_text(env, path, want, cls):
    with env.quiet():
        try:
            with open(path) as f:
                got = f.read()
        except OSError as e:
            raise Violation(cls, f"no text file: {e}") from None
    if got.strip() != want.strip():
        raise Violation(cls, f"text file has {len(got)} characters, "
                             f"expected {len(want)}")
