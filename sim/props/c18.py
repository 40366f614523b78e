"""C18: upgrading data is all or nothing and loses nothing."""
import contextlib
import copy
import errno
import json
import os
import random

import numpy as np

from .. import breaks, convdb, gen, ops
from ..kernel import Lines, Output, Violation, call, must
from . import c10
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run upgrades an object of a deprecated convention (created, "
        "copied, read; with arbitrary data, customs, missing and invalid "
        "entries; with the rules of the fixture or seeded rules) while a "
        "read error, Ctrl-C at a seeded line or system call, or a failing "
        "standard output strikes, and repeats it; non-trivial if a fault "
        "fired or the object was upgraded")
STATE = "hash of rules, outcomes and the final object"
UPGRADES = [(f"{name}_{v}", t) for name, u in convdb.upgrades().items()
            for vs, ts, _ in u["from_to"] for v in vs for t in ts]
NEW = ["GLOBAL:Moved", "MovedTo", "GLOBAL:ListenerShortName", "Data.Moved",
       "Descriptions", "GLOBAL:Title", "Moved:Units", "GLOBAL:Comment"]


def gen_plan(rng, tier, i):
    conv, target = rng.choice(UPGRADES)
    other = False
    if rng.random() < 0.1:
        conv = rng.choice(sorted(gen.TABLES))
        other = True
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, [conv], small=True),
            "origin": rng.choice(["new", "new", "copy", "pickle", "file-raw",
                                  "netcdf"]),
            "target": target, "rules": None, "breaks": [], "missing": 0,
            "early": [rng.randrange(1 << 30) for _ in range(
                rng.choice([0, 0, 1, 3]))], "drop": [], "verify": rng.choice(["auto", "auto", True, False]),
            "calls": [], "other": other}
    if rng.random() < 0.5:
        plan["rules"] = rng.randrange(1 << 30)
    if rng.random() < 0.2:
        plan["breaks"] = [[rng.choice([k for k in sorted(breaks.ALL)
                                       if k != "convention"]),
                           rng.randrange(1 << 30)]]
    if rng.random() < 0.1 and not other:
        plan["missing"] = 1
    if rng.random() < 0.15:
        plan["drop"] = [rng.randrange(1 << 30)
                        for _ in range(rng.choice([1, 2]))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"target": rng.choice(["given"] * 8 + [None, "bad"]),
             "fault": None, "protect": int(rng.random() < 0.9),
             "probes": [[rng.choice(c10.PROBES), rng.randrange(1 << 30)]
                        for _ in range(2)]}
        r = rng.random()
        if r < 0.35:
            c["fault"] = {
                "op": rng.choice(["read", "read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "eof"]),
                "at": rng.randrange(1000), "arg": 0,
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT",
                                   "ENOMEM"]),
                "sticky": int(rng.random() < 0.2),
                "where": rng.choice(["/rules/", "/conventions/", "/rundb"])}
            if c["fault"]["act"] != "error":
                c["fault"]["sticky"] = 0
        elif r < 0.65:
            c["fault"] = {"line": rng.randrange(1000),
                          "before_verify": int(rng.random() < 0.6)}
        elif r < 0.85:
            c["fault"] = {"print": rng.randrange(1000),
                          "err": rng.choice(["EPIPE", "ENOSPC", "EIO"])}
        plan["calls"].append(c)
    return plan


def seeded_rules(rng, conv, target):
    """Rules that move and remove entries of one convention."""
    src = [n for n, *_ in gen.TABLES[conv][1]]
    kind = {n: t for n, _, _, _, t, _ in gen.TABLES[conv][1]}
    fixed = ("GLOBAL:SOFAConv", "GLOBAL:Version", "GLOBAL:Conventions",
             "GLOBAL:DataType")
    src = [n for n in src if not n.startswith(fixed)]
    rng.shuffle(src)
    tgt = [n for n, *_ in gen.TABLES[target][1]
           if n not in kind and not n.startswith(fixed)]
    move, used = {}, set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = src.pop()
        free = [t for t in NEW + tgt if t not in used and t not in move
                and t != s and not t.startswith(fixed)]
        t = rng.choice(free + [s])
        if t in [m["target"] for m in move.values()]:
            continue
        if t in src:
            src.remove(t)
        used.add(t)
        ax = None
        if kind[s] != "attribute" and rng.random() < 0.5:
            ax = [rng.randrange(4), rng.randrange(4)]
        move[s] = {"target": t, "moveaxis": ax, "deprecated_dimensions":
                   rng.choice([None, ["I"], ["M", "R"]])}
    remove = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        n = src.pop()
        if n not in used:
            remove.append(n)
    return {"move": move, "remove": remove,
            "message": rng.choice([None, "Read this"])}


def run(env, plan):
    up = convdb.upgrades()
    conv = plan["new"]["conv"]
    name, ver = conv.split("_")
    if plan["rules"] and plan["rules"] % 3 == 0:
        for u in up.values():
            for f in u["from_to"]:
                f[0].insert(0, "0.01")
    if plan["rules"] and not plan["other"]:
        for vs, ts, rid in up[name]["from_to"]:
            if ver in vs:
                up[name][rid] = seeded_rules(random.Random(plan["rules"]),
                                             conv, plan["target"])
    fs = convdb.files()
    fs["rules/upgrade.json"] = json.dumps(up)
    if plan["missing"]:
        for f in [f for f in fs if f.endswith(f"/{plan['target']}.json")]:
            fs.pop(f)
    env.fresh_db(fs)
    b = c10.make(env, {"new": plan["new"], "origin": plan["origin"]}) \
        if conv in gen.WRITABLE or plan["origin"] in ("new", "copy",
                                                      "pickle") else \
        must("build", gen.build, plan["new"])
    s = b.sofa
    for seed in plan["early"]:
        add_early(b, plan["target"], random.Random(seed))
    for kind, seed in plan["breaks"]:
        breaks.apply(b, kind, random.Random(seed))
    for seed in plan["drop"]:
        ks = [k for k in vars(s) if not k.startswith("_") and
              not k.startswith(("GLOBAL_SOFAConv", "GLOBAL_Version",
                                  "GLOBAL_DataType"))]
        k = random.Random(seed).choice(ks)
        breaks.unlocked(s, lambda k=k: delattr(s, k))
    target = plan["target"]
    hist = []
    lines = []
    for n, c in enumerate(plan["calls"]):
        c = dict(c, lines=lines)
        t = {"given": target, None: None}.get(
            c["target"], "GeneralFIR_9.9" if plan["env"]["rand"] % 2
            else "nonsense")
        s.protected = bool(c["protect"])
        hist.append(one(env, b, up, c, t, plan, f"call {n}"))
    env.state = str((up.get(name), hist, sorted(gen.fingerprint(s).items())))


def add_early(b, target, rng):
    """Custom entries that are part of the new convention."""
    s = b.sofa
    new = [(k, d, dims, t) for k, (d, _, dims, t) in gen.conv_info(
        target).items() if k not in vars(s) and
        k not in gen.conv_info(b.spec["conv"])]
    if not new:
        return
    k, d, dims, t = rng.choice(new)
    if t == "attribute":
        if k.count("_") != 1 or not (k.startswith("GLOBAL_") or
                                     k.split("_")[0] in vars(s)):
            return
        s.add_attribute(k, d)
    elif "_" in k:
        return
    else:
        s.add_variable(k, d, t, gen.first_dims(dims).upper())
    b.types[k] = (t, dims)


def one(env, b, up, c, t, plan, what):
    s = b.sofa
    before = gen.fingerprint(s)
    want = expected(s, up, t, plan)
    # without a fault
    clone, orig = copy.deepcopy(s), copy.deepcopy(s)
    ref = call(clone.upgrade_convention, t, plan["verify"])
    judge(env, b, before, want, ref, clone, plan,
          f"{what} to {t} without fault: {str(ref)[:150]}")
    after_ref = gen.fingerprint(clone)

    def fn(x, verify=plan["verify"]):
        return x.upgrade_convention(**ops.args(target=t, verify=verify))
    fault = c["fault"]
    if fault and "line" in fault and ref[0] == "raised":
        fault = None        # (Ctrl-C while handling an error)
    res, v, nf = faulty(env, s, fn, fault)
    env.ev(res, type(v).__name__ if res == "raised" else repr(v), nf)
    after = gen.fingerprint(s)
    desc = f"{what} to {t}" + (
        f" raised {type(v).__name__}: {str(v)[:80]}" if res == "raised"
        else " returned") + (" (fault)" if nf else "")
    if nf:
        env.probe("nontrivial")
    if not nf:
        if (res, str(v)) != (ref[0], str(ref[1])):
            raise Violation("not-repeatable",
                            f"{desc}: {v}, but {ref} for an equal object")
        gen.unchanged("not-repeatable", after_ref, after, desc)
        return (res, after == before)
    if res == "ok" and ref[0] == "ok":
        # the fault had no consequence
        gen.unchanged("wrongly-upgraded", after_ref, after, desc)
        return (res, after == before)
    if tr_line := bool(fault and "line" in fault):
        # (verification lifts the protection for a moment)
        c["lines"].append(1)
        s.protected = True
    bad = want and differences(want, s)
    if want is not None and not bad:
        env.probe("upgraded despite error")
        return (res, "upgraded")
    if res == "ok" and want is not None:
        raise Violation("wrongly-upgraded", f"{desc}: {bad}")
    if tr_line:
        after["<protected>"] = before["<protected>"]
        s.protected = before["<protected>"]
    if after != before:
        gen.unchanged("half-upgraded", before, after, desc)
    env.probe("rolled back")
    again = copy.deepcopy(s)
    res2, v2 = call(fn, again)
    if (res2, str(v2)) != (ref[0], str(ref[1])):
        raise Violation("not-repeatable", (
            f"{desc}; then again: {res2} {str(v2)[:200]} instead of "
            f"{str(ref)[:200]}"))
    gen.unchanged("not-repeatable", after_ref, gen.fingerprint(again),
                  f"{desc}; then again")
    if c["lines"]:
        # (info etc. need the next verification to complete the convention)
        return (res, "unchanged")
    # usable as before
    x, y = gen.Built(), gen.Built()
    for z, o in ((x, copy.deepcopy(s)), (y, orig)):
        z.spec, z.types, z.model, z.sofa = b.spec, b.types, b.model, o
        o.protected = True
    c10.compare(env, x, y, c["probes"], desc)
    return (res, "unchanged")


def expected(s, up, t, plan):
    """What the completely upgraded object holds, None if not available."""
    d = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    name = str(d.get("GLOBAL_SOFAConventions"))
    ver = str(d.get("GLOBAL_SOFAConventionsVersion"))
    rule = None
    for vs, ts, rid in up.get(name, {}).get("from_to", []):
        if ver in vs and t in ts:
            rule = up[name][rid]
    if "GLOBAL_Version" not in d:
        return None
    if rule is None or t not in gen.TABLES or (
            plan["missing"] and t == plan["target"]):
        return None
    info = gen.conv_info(t)
    want = {k: ("exact", gen.value_print(v)) for k, v in d.items()}
    d = dict(d)
    for k in ("GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
              "GLOBAL_Version", "GLOBAL_DataType"):
        want[k] = ("exact", gen.value_print(info[k][0]))
        d[k] = info[k][0]
    try:
        for src, mv in rule["move"].items():
            src, dst = gen.sofar_name(src), gen.sofar_name(mv["target"])
            v = d.pop(src)
            want.pop(src)
            if mv["moveaxis"] is not None:
                v = np.ma.asanyarray(v) if np.ma.isMA(v) else np.asarray(v)
                if v.dtype.kind not in "fiubc":
                    return "any"
                v = v.reshape(v.shape + (1,) * (
                    max(mv["moveaxis"]) + 1 - v.ndim))
                v = np.moveaxis(v, *mv["moveaxis"])
                want[dst] = ("guess", gen.guess(v))
            else:
                want[dst] = ("exact", gen.value_print(v))
            d[dst] = v
        for k in rule["remove"]:
            want.pop(gen.sofar_name(k))
    except (KeyError, ValueError):
        # data to move or remove are missing or do not have the axis
        return None
    for k, (default, flags, dims, typ) in info.items():
        if k not in want and "m" in (flags or ""):
            want[k] = ("canon", gen.canon(default, typ, dims), typ, dims)
    return want


def differences(want, s):
    if want == "any":
        return None
    got = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    out = []
    if s.protected is not True:
        out.append("not protected")
    for k in sorted(set(want) | set(got)):
        if k not in got or k not in want:
            out.append(f"{k} is " + ("missing" if k in want else
                                     "unexpected"))
            continue
        how, w, *a = want[k]
        try:
            g = {"exact": gen.value_print, "guess": gen.guess,
                 "canon": lambda v, a=a: gen.canon(v, *a)}[how](got[k])
        except (TypeError, ValueError) as e:
            g = e
        if g != w:
            out.append(f"{k}: expected {str(w)[:150]} got {str(g)[:150]}")
    return "; ".join(out[:6])


def judge(env, b, before, want, ref, clone, plan, what):
    """The upgrade without faults."""
    after = gen.fingerprint(clone)
    if want is None:
        gen.unchanged("object-changed", before, after, what)
        return
    if want == "any":
        return
    if ref[0] == "raised" and after == before:
        raise Violation("not-upgraded", what)
    bad = differences(want, clone)
    if bad:
        raise Violation("wrongly-upgraded", f"{what}: {bad}")
    env.probe("nontrivial")
    env.probe("upgraded")
    again = copy.deepcopy(clone)
    ver = float(clone.GLOBAL_SOFAConventionsVersion)
    verified = plan["verify"] is True or (plan["verify"] == "auto" and
                                          ver >= 1)
    if ref[0] == "raised":
        if not verified:
            raise Violation("not-upgraded", f"{what}: not to be verified")
        if call(again.verify)[0] == "ok":
            raise Violation("not-upgraded", f"{what}: the object is valid")
        return
    if ref[1] is not None:
        raise Violation("not-upgraded", f"{what}: returned {ref[1]}")
    if verified:
        must("invalid", again.verify)
        env.probe("valid")
        # it can be written and read as what it is
        if plan["other"] or np.any([np.ma.isMA(v) for v in
                                    vars(again).values()]):
            return
        must("not-writable", sofar.write_sofa, "upgraded", again)
        back = must("not-readable", sofar.read_sofa, "upgraded")
        types = dict(b.types)
        types.update({k: (x[3], x[2]) for k, x in gen.conv_info(
            "_".join([again.GLOBAL_SOFAConventions,
                      again.GLOBAL_SOFAConventionsVersion])).items()})
        gen.same("lost-in-file", gen.content(again, types),
                 gen.content(back, types), what)


def faulty(env, s, fn, fault):
    """Call fn(s) while the fault strikes: (result, value, fired)."""
    if not fault:
        return (*call(fn, s), 0)
    if "line" in fault:
        tr = Lines(env.package)
        args = (False,) if fault["before_verify"] else ()

        def count():
            with tr:
                fn(copy.deepcopy(s), *args)
        call(count)
        tr = Lines(env.package, 1 + fault["line"] * max(1, tr.count) // 1000)

        def interrupted():
            with tr:
                return fn(s)
        r = call(interrupted)
        if tr.fired:
            env.note_fault("sigint:line")
        return (*r, tr.fired)
    if "print" in fault:
        out = Output(0, None)

        def speak():
            with contextlib.redirect_stdout(out):
                return fn(copy.deepcopy(s))
        call(speak)
        e = getattr(errno, fault["err"])
        out = Output(1 + fault["print"] * max(1, out.count) // 1000,
                     OSError(e, os.strerror(e)))

        def silenced():
            with contextlib.redirect_stdout(out):
                return fn(s)
        r = call(silenced)
        if out.fired:
            env.note_fault("error:stdout:" + fault["err"])
        return (*r, out.fired)
    ops.place(env, fault, ops.dry(env, lambda: fn(s)), fault["where"])
    r = call(fn, s)
    return (*r, env.disarm())
