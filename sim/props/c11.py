"""C11: read-only and mandatory data stay protected."""
import pickle
import random

import numpy as np

from .. import breaks, convdb, gen, ops
from ..kernel import Violation, call, must
from . import c10
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run takes an object (created, copied, pickled, read, or upgraded; "
        "with seeded flags in the convention database) through a seeded "
        "history of operations with failures, I/O errors and interrupts; "
        "after every step seeded attempts on its protection are judged "
        "against the flags of the convention; non-trivial if a step failed "
        "or a fault fired")
STATE = "hash of the steps, attempts and the final object"
UPGRADES = [(f"{name}_{v}", t) for name, u in convdb.upgrades().items()
            for vs, ts, _ in u["from_to"] for v in vs for t in ts]
ORIGIN = ["new", "new", "new", "copy", "pickle", "file", "file-raw",
          "netcdf", "partial", "upgrade", "upgrade"]
KINDS = c10.KINDS + ["again-upgrade", "pickled", "reread", "copied",
                     "protect-cycle", "protect-cycle"]
FLIP = ["GLOBAL:RoomType", "Data.SamplingRate:Units", "N:Units",
        "N:LongName", "ListenerView:Type", "ListenerView:Units",
        "GLOBAL:DataType"]
UNKNOWN = ["Foo", "GLOBAL_Foo", "Data.IR", "data_ir", "GLOBAL_title",
           "Data_IRs", "ListenerPosition_Foo", "verify", "copy", "_x",
           "GLOBAL:Title", "Data_IR ", "", "x y", "protectd", "add_missing",
           "list_dimensions", "delete", "__doc__", "info", "_protecte"]


def gen_plan(rng, tier, i):
    o = rng.choice(ORIGIN)
    up = None
    convs = None
    if o == "upgrade":
        up = rng.choice(UPGRADES)
        convs = [up[0]]
    elif o in ("new", "copy", "pickle"):
        convs = list(gen.TABLES)
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, convs, small=True),
            "origin": o, "target": up[1] if up else None,
            "breaks": [], "steps": [], "flip": []}
    if rng.random() < 0.5:
        plan["flip"] = [[rng.choice(sorted(gen.TABLES)), rng.choice(FLIP),
                         rng.choice(["rm", "rm", "r", "m", ""])]
                        for _ in range(rng.choice([1, 2, 4, 8]))]
        c = up[1] if up else plan["new"]["conv"]
        plan["flip"].append([c, rng.choice(FLIP), "rm"])
    if rng.random() < 0.25:
        plan["breaks"] = [[rng.choice([k for k in sorted(breaks.ALL)
                                       if k != "convention"] +
                                      ["no_mandatory"] * 4),
                           rng.randrange(1 << 30)]]
    for _ in range(rng.choice([1, 3, 5, 8])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "fault": None, "strict": int(rng.random() < 0.1),
              "attempts": [[rng.choice(ATTEMPTS), rng.randrange(1 << 30)]
                           for _ in range(rng.choice([1, 2, 4]))]}
        if rng.random() < 0.4:
            st["fault"] = {
                "op": rng.choice(["read", "read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "eof"]),
                "at": rng.randrange(1000), "arg": 0,
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": int(rng.random() < 0.3),
                "where": rng.choice(["/rules/", "/conventions/", "/rundb",
                                     "/disk"])}
            if st["fault"]["act"] != "error":
                st["fault"]["sticky"] = 0
        plan["steps"].append(st)
    return plan


ATTEMPTS = ["set-readonly", "set-readonly", "del-mandatory",
            "del-mandatory", "set-unknown", "set-unknown", "set-free",
            "set-deleted", "del-again", "del-again", "del-custom"]


def run(env, plan):
    tabs = convdb.tables()
    for conv, name, flags in plan["flip"]:
        if conv in tabs:
            dep, rows = tabs[conv]
            tabs[conv] = (dep, [
                (n, d, (flags or None) if n == name else f, *rest)
                for n, d, f, *rest in rows])
    env.fresh_db(convdb.files(tabs))
    spec = plan["new"]
    if any(c == spec["conv"] for c, _, _ in plan["flip"]):
        # build assigns to these entries
        spec = dict(spec, sph=[], unit="metre", drop=[])
    b = make(env, plan, spec)
    for kind, seed in plan["breaks"]:
        breaks.apply(b, kind, random.Random(seed))
    now = {"conv": spec["conv"]}
    if plan["origin"] == "upgrade":
        call(b.sofa.upgrade_convention, plan["target"])
        # (the object is upgraded even if its verification raised)
        if b.sofa.GLOBAL_SOFAConventions + "_" + str(
                b.sofa.GLOBAL_SOFAConventionsVersion) == plan["target"]:
            now["conv"] = plan["target"]
        check_protected(b, "upgrade")
    hist = []
    for n, st in enumerate(plan["steps"]):
        what = f"step {n} {st['do']}"
        fn = step_fn(env, b, st, plan, now)
        if st.get("strict"):
            fn = c10.strictly(fn)
        if st["fault"]:
            ops.place(env, st["fault"], ops.dry(env, fn),
                      st["fault"]["where"])
        res, v = call(fn)
        nf = env.disarm()
        env.ev(st["do"], res, nf)
        if res == "raised" or nf:
            env.probe("nontrivial")
        if res == "raised":
            what += f" ({type(v).__name__}: {str(v)[:100]})"
        hist.append((st["do"], res))
        check_protected(b, what)
        for k, seed in st["attempts"]:
            r = attempt(env, b, flags_of(tabs, now["conv"]), k,
                        random.Random(seed), what,
                        plan["origin"] == "netcdf")
            hist.append((k, r))
            env.ev(k, r)
    env.state = str((hist, sorted(gen.fingerprint(b.sofa).items())))


def make(env, plan, spec):
    o = plan["origin"]
    if o == "upgrade":
        b = must("build", gen.build, spec)
    else:
        b = c10.make(env, dict(plan, new=spec))
    return b


def step_fn(env, b, st, plan, now):
    do = st["do"]
    s = b.sofa
    rng = random.Random(st["seed"])
    if do == "again-upgrade":
        ts = [t for c, t in UPGRADES if c == now["conv"]]
        t = rng.choice(ts or ["GeneralTF_2.0"])

        def upgrade():
            r = s.upgrade_convention(t)
            if ts and s.GLOBAL_SOFAConventions == t.split("_")[0] and \
                    s.GLOBAL_SOFAConventionsVersion == t.split("_")[1]:
                now["conv"] = t
            return r

        def upgrade_safe():
            try:
                return upgrade()
            finally:
                # what it is now, also if the verification at the end failed
                for c in (t, now["conv"]):
                    if ts and (s.GLOBAL_SOFAConventions + "_" + str(
                            s.GLOBAL_SOFAConventionsVersion)) == c:
                        now["conv"] = c
        return upgrade_safe
    if do == "pickled":
        def pickled():
            b.sofa = pickle.loads(pickle.dumps(s))
        return pickled
    if do == "copied":
        def copied():
            b.sofa = s.copy()
        return copied
    if do == "reread":
        def reread():
            sofar.write_sofa("re", s)
            t = sofar.read_sofa("re", rng.choice(["auto", False]), False)
            b.sofa = t
        return reread if plan["origin"] != "netcdf" else s.copy
    if do == "protect-cycle":
        k = rng.choice(["GLOBAL_Title", "GLOBAL_Version", "GLOBAL_Comment"])

        def cycle():
            old = s.protected
            s.protected = False
            try:
                setattr(s, k, vars(s).get(k, "x"))
                if rng.random() < 0.5:
                    s.verify("raise")
            finally:
                try:
                    s.protected = old
                except ValueError as e:
                    raise Violation("unprotected", (
                        f"protection cannot be restored: {e}")) from None
        return cycle
    return c10.step_fn(b, do, st["seed"], "out")


def flags_of(tabs, conv):
    return {gen.sofar_name(n): f or "" for n, _, f, *_ in tabs[conv][1]}


def check_protected(b, what):
    if b.sofa.protected not in (True,):
        raise Violation("unprotected", f"{what}: the object is not protected")


def attempt(env, b, flags, kind, rng, what, netcdf):
    s = b.sofa
    have = [k for k in vars(s) if not k.startswith("_")]
    before = gen.fingerprint(s)

    def refused(cls, name, fn, *args):
        res, v = call(fn, *args)
        if res == "ok":
            raise Violation(cls, f"{what}: {kind} of {name} was possible")
        if not isinstance(v, TypeError):
            raise Violation(cls, (
                f"{what}: {kind} of {name} raised {type(v).__name__}: "
                f"{str(v)[:100]} instead of TypeError"))
        gen.unchanged(cls, before, gen.fingerprint(s),
                      f"{what}: refused {kind} of {name}")
        env.probe("refused")
        return "refused"

    if kind == "set-readonly":
        ks = [k for k in have if "r" in flags.get(k, "")]
        if not ks or netcdf:
            return "none"
        k = rng.choice(ks)
        v = rng.choice(["x", 1, vars(s)[k], [1, 2]])
        return refused("read-only-changed", k, setattr, s, k, v)
    if kind == "del-mandatory":
        ks = [k for k in have if "m" in flags.get(k, "")]
        if not ks or netcdf:
            return "none"
        k = rng.choice(ks)
        return refused("mandatory-deleted", k, s.delete if
                       rng.random() < 0.5 else s.__delattr__, k)
    if kind == "set-unknown":
        k = rng.choice([u for u in UNKNOWN if u not in vars(s)])
        return refused("unknown-assigned", k, setattr, s, k,
                       rng.choice(["x", 1.0, [1, 2, 3]]))
    if kind == "set-deleted":
        ks = [k for k in flags if k not in vars(s)]
        if not ks:
            return "none"
        k = rng.choice(ks)
        return refused("unknown-assigned", k, setattr, s, k, "x")
    free = [k for k in have if "r" not in flags.get(k, "")]
    if kind == "set-free":
        k = rng.choice(free)
        old = vars(s)[k]
        v = "new text" if isinstance(old, str) else np.atleast_2d(
            np.arange(1., 1 + np.size(old)).reshape(np.shape(old) or 1)) \
            if np.asarray(old).dtype.kind in "fi" else old
        res, e = call(setattr, s, k, v)
        if res == "raised":
            raise Violation("not-possible", f"{what}: assigning {k} raised "
                            f"{type(e).__name__}: {str(e)[:100]}")
        if not isinstance(v, str) and v is not old and not np.array_equal(
                np.ravel(vars(s)[k]), np.ravel(v)) or isinstance(
                v, str) and vars(s)[k] != v:
            raise Violation("not-possible", f"{what}: {k} was not assigned")
        s_new = gen.fingerprint(s)
        s_new[k] = before[k]
        gen.unchanged("other-changed", before, s_new, f"{what}: assigned {k}")
        setattr(s, k, old)
        return "assigned"
    # deleting and adding again
    if kind == "del-custom":
        ks = [k for k in have if k not in flags]
    else:
        ks = [k for k in have if "m" not in flags.get(k, "") and k in flags]
    if netcdf:
        ks = [k for k in ks if "m" not in flags.get(k, "")]
    if not ks:
        return "none"
    k = rng.choice(ks)
    old = vars(s)[k]
    res, e = call(s.delete, k)
    if res == "raised":
        raise Violation("not-possible", f"{what}: deleting {k} raised "
                        f"{type(e).__name__}: {str(e)[:100]}")
    after = gen.fingerprint(s)
    if k in after:
        raise Violation("not-possible", f"{what}: {k} was not deleted")
    gone = dict(before)
    gone.pop(k)
    gen.unchanged("other-changed", gone, after, f"{what}: deleted {k}")
    refused2 = call(setattr, s, k, old)
    if refused2[0] == "ok" or not isinstance(refused2[1], TypeError):
        raise Violation("unknown-assigned", (
            f"{what}: assigning {k} after it was deleted: {refused2}"))
    # add it again
    typ, dims = b.types.get(k, (None, None))
    if typ is None:
        typ, dims = ("attribute", None) if isinstance(old, str) else \
            ("double", "I")
    if typ == "attribute":
        if k.count("_") != 1 or (not k.startswith("GLOBAL_") and
                                 k.split("_")[0] not in vars(s)):
            return "deleted"
        add = (s.add_attribute, k, old)
    elif "_" in k:
        return "deleted"
    else:
        add = (s.add_variable, k, old, typ, gen.first_dims(dims))
    res, e = call(*add)
    if res == "raised":
        raise Violation("not-possible", f"{what}: adding {k} again raised "
                        f"{type(e).__name__}: {str(e)[:100]}")
    gen.unchanged("not-possible", before, gen.fingerprint(s),
                  f"{what}: {k} deleted and added again")
    check_protected(b, f"{what}: {k} added")
    return "again"
