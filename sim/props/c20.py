"""C20: objects are created and completed as their convention says."""
import builtins
import copy
import json
import os
import random
import re

import numpy as np

from .. import convdb, gen, ops, site
from ..kernel import Violation, call, must, mute
from . import c12
from sofar.update_conventions import update_conventions
import sofar

RUNS = {"quick": 1800, "thorough": 16000}
RULE = ("a run installs conventions with seeded additional entries (as files "
        "or by an update from the simulated server), and creates, changes, "
        "strips, completes, verifies, lists, stores and reads objects while "
        "reads of the conventions fail and conventions are replaced; after "
        "every step all objects are compared with the tables; non-trivial "
        "if entries were completed or a fault fired")
STATE = "hash of the contents of all objects"
KINDS = (["new"] * 5 + ["add-missing"] * 6 + ["strip"] * 5 + ["scribble"] * 3
         + ["verify", "verify", "roundtrip", "info", "info", "table",
            "custom", "copy"])


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "rich": [], "style":
            rng.randrange(1 << 30), "net": int(rng.random() < 0.15),
            "steps": [{"do": "new", "seed": rng.randrange(1 << 30),
                       "fault": None}]}
    names = sorted(gen.TABLES)
    for _ in range(rng.choice([0, 1, 3, 6])):
        plan["rich"].append([rng.choice(names), rng.randrange(1 << 30)])
    plan["more"] = [[rng.choice(names), rng.randrange(1 << 30)]
                    for _ in range(rng.choice([0, 0, 1, 2]))]
    for _ in range(rng.choice([3, 5, 8] if tier == "quick"
                              else [4, 8, 16])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "of": rng.randrange(1000), "fault": None}
        if rng.random() < 0.3:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr", "stat"]),
                "act": rng.choice(["error"] * 4 + ["short", "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM",
                                   "ENOENT"]),
                "sticky": int(rng.random() < 0.2),
                "where": rng.choice(["/conventions/", "/conventions/",
                                     "/rules/"])}
            if st["fault"]["act"] != "error":
                st["fault"]["sticky"] = 0
                st["fault"]["op"] = "read"
        plan["steps"].append(st)
    return plan


# -- tables -------------------------------------------------------------------
def enrich(rows, seed, plain):
    """Further entries of all types; plain: as can be written to csv."""
    rng = random.Random(seed)
    rows = list(rows)
    have = {r[0] for r in rows}
    words = [w for w in gen.ASCII_WORDS if not number(w) and "\t" not in w
             and w == w.strip()] if plain else gen.WORDS

    def flags():
        return rng.choice([None, None, "m", "m", "r", "rm"])

    def num():
        return rng.choice([0, 1, -3, 0.5, 12.25, 48000, -0.125])

    def put(*row):
        if row[0] in have:
            return
        have.add(row[0])
        at = rng.randrange(len(rows) + 1) if not plain else len(rows)
        rows.insert(at, row + (rng.choice(site.WORDS),))
    for _ in range(rng.randrange(1, 6)):
        kind = rng.choice(["attr", "attr", "number", "vector", "matrix",
                           "string", "var-attr"])
        x = rng.choice("ABCDE")
        if kind == "attr":
            put("GLOBAL:Extra" + x, rng.choice(words), flags(), None,
                "attribute")
        elif kind == "number":
            put("ExtraNumber" + x, num(), flags(),
                rng.choice(["I", "I, M", "II", "IM, MI", "M", "IR, MR"][:5]),
                "double")
        elif kind == "vector":
            put("ExtraVector" + x, [num(), num(), num()], flags(),
                rng.choice(["IC", "IC, MC", "MC"]), "double")
        elif kind == "matrix":
            put("ExtraMatrix" + x, [[num(), num(), num()]], flags(),
                rng.choice(["IC", "IC, MC"]), "double")
        elif kind == "string":
            put("ExtraString" + x, [""], flags(), rng.choice(["IS", "MS"]),
                "string")
        else:
            n = "ExtraAnnotated" + x
            if n not in have:
                f = flags()
                put(n, num(), f, "I", "double")
                put(n + ":" + rng.choice(["Note", "LongName"]),
                    rng.choice(words), rng.choice([f, None]), None,
                    "attribute")
    return rows


def number(w):
    try:
        float(w)
        return True
    except ValueError:
        return not w


class World:
    def __init__(self, env, plan):
        self.env, self.pool = env, []
        self.tabs = dict(gen.TABLES)
        for name, seed in plan["rich"]:
            dep, rows = self.tabs[name]
            self.tabs[name] = (dep, enrich(rows, seed, plan["net"]))
        for name, seed in plan["more"]:
            # (with the random state of the name: newer and older versions)
            self.tabs = site.evolve(self.tabs, [["newver", seed, name]])
        if not plan["rich"] and not plan["more"] and not plan["net"] and not any(
                s["do"] == "table" for s in plan["steps"]):
            return                  # (the common, read-only database)
        if not plan["net"]:
            env.fresh_db(convdb.files(self.tabs))
            return
        env.fresh_db(convdb.files(with_csv=True))
        srv = site.Site(env, plan["style"])
        srv.publish(self.tabs)
        srv.plan([])
        builtins.input = c12.Asked(env, "y")
        must("update", update_conventions, None, True)
        env.probe("updated from the server")

    def info(self, name):
        """sofar name -> (default, flags, dims, type)"""
        return {gen.sofar_name(n): (d, f, dims, t)
                for n, d, f, dims, t, _ in self.tabs[name][1]}


def default_of(row):
    d, _, dims, typ = row
    return gen.canon(d, typ, dims)


def types_of(info):
    return {k: (r[3], r[2]) for k, r in info.items()}


# -- steps ----------------------------------------------------------------------
def guarded(env, st, fn):
    """Run an operation that may meet the fault of the step."""
    if st["fault"]:
        ops.place(env, st["fault"], ops.dry(env, fn), st["fault"]["where"])
    res, v = call_out(fn)
    fired = env.disarm()
    env.ev(st["do"], res, fired)
    if fired:
        env.probe("nontrivial")
    return res, v, fired


def call_out(fn):
    with mute() as (out, _):
        try:
            r = fn()
            return "ok", (r, out.getvalue())
        except Exception as e:  # noqa: B902
            return "raised", e


def unexpected(cls, what, v):
    raise Violation(cls, f"{what}: {type(v).__name__}: {v}")


def create(w, st, rng, what):
    env = w.env
    name = rng.choice(sorted(w.tabs))
    rich = [n for n in w.tabs if any("Extra" in r[0]
                                     for r in w.tabs[n][1])]
    if rich and rng.random() < 0.7:
        name = rng.choice(sorted(rich))
    conv, ver = name.split("_")
    dep = w.tabs[name][0]
    kw = {"version": ver}
    newest = max((n.split("_")[1] for n in w.tabs if n.startswith(
        conv + "_")), key=float)
    if newest == ver and rng.random() < 0.5:
        kw = rng.choice([{}, {"version": "latest"}])
    mand = rng.random() < 0.35
    if not dep and name in gen.WRITABLE:
        kw["verify"] = rng.choice([True, False, "auto"])
    else:
        kw["verify"] = False
    if rng.random() < 0.8 or mand:
        kw["mandatory"] = mand
    res, v, fired = guarded(env, st, lambda: sofar.Sofa(conv, **kw))
    what += f" {name} {kw}"
    if res == "raised":
        if fired and st["fault"]["act"] == "error":
            return
        unexpected("not-created", what, v)
    s = v[0]
    info = w.info(name)
    want = {k: default_of(r) for k, r in info.items()
            if not mand or "m" in (r[1] or "")}
    got = gen.content(s, types_of(info))
    for k in gen.AUTO:
        if got.get(k, ("",))[0] != "attr" or not got[k][1]:
            raise Violation("not-created", f"{what}: {k} is {got.get(k)}")
        want[k] = got[k]
    gen.same("new-object", want, got, what)
    if s.protected is not True:
        raise Violation("new-object", f"{what}: protected is {s.protected}")
    w.pool.append({"sofa": s, "name": name, "types": types_of(info),
                   "valid": name in gen.WRITABLE, "custom": []})


def entries(s):
    return [k for k in vars(s) if not k.startswith("_")]


def strip(w, m, rng):
    """Entries get lost (mandatory ones as well)."""
    s = m["sofa"]
    ks = [k for k in entries(s) if k not in m["custom"] and
          not k.startswith("GLOBAL_SOFAConv")]
    for k in rng.sample(ks, min(len(ks), rng.choice([1, 2, 4, 8, 100]))):
        s.protected = False
        delattr(s, k)
        s.protected = True
    if not m["sofa"].__dict__.get("GLOBAL_DataType"):
        m["lost"] = True


def scribble(m, rng):
    """Change everything that can be changed in place."""
    for k in entries(m["sofa"]):
        v = vars(m["sofa"])[k]
        if isinstance(v, np.ndarray) and v.dtype.kind in "fi" and \
                v.flags.writeable and rng.random() < 0.8:
            v[...] = rng.choice([0, 1, 7])


def complete(w, m, st, rng, what):
    s = m["sofa"]
    name = m["name"]
    info = w.info(name)
    mand, opt, verb = (rng.random() < 0.7, rng.random() < 0.7,
                       rng.random() < 0.6)
    before = gen.content(s, m["types"])
    fp = gen.fingerprint(s)
    kw = {"mandatory": mand, "optional": opt, "verbose": verb}
    if mand and opt and rng.random() < 0.5:
        kw = {} if verb else {"verbose": False}
    if rng.random() < 0.3:
        fn = lambda: s.add_missing(mand, opt, verb)  # noqa: E731
    else:
        fn = lambda: s.add_missing(**kw)  # noqa: E731
    res, v, fired = guarded(w.env, st, fn)
    what += f" {name} mandatory={mand} optional={opt}"
    if res == "raised":
        if not fired:
            unexpected("not-completed", what, v)
        gen.unchanged("half-completed", fp, gen.fingerprint(s), what)
        # nothing prevents it from working later
        res, v = call_out(fn)
        if res == "raised":
            unexpected("not-completed", what + " again", v)
    add = {}
    for k, r in info.items():
        is_m = "m" in (r[1] or "")
        if k not in before and (mand if is_m else opt):
            add[k] = default_of(r)
    after = gen.content(s, {**m["types"], **types_of(info)})
    want = {k: (before[k] if m["types"].get(k) == types_of(info).get(
        k, m["types"].get(k)) else after.get(k)) for k in before}
    want.update(add)
    gen.same("completed", want, after, what)
    # what was there is untouched
    now = gen.fingerprint(s)
    gen.unchanged("completed", fp, {k: now[k] for k in now if k in fp}, what)
    m["types"] = {**m["types"], **{k: types_of(info)[k] for k in add}}
    said = set(re.findall(r"^- (\w+) \((mandatory|optional)\)$", v[1],
                          re.M))
    expect = {(k, "mandatory" if "m" in (info[k][1] or "") else "optional")
              for k in add} if verb else set()
    if said != expect:
        raise Violation("told", f"{what}: printed {sorted(said ^ expect)}"
                                f" wrongly")
    if not verb and v[1]:
        raise Violation("told", f"{what}: printed {v[1][:100]!r} although "
                                "verbose=False")
    if add:
        w.env.probe("nontrivial")
        w.env.probe("completed")
    if m["valid"] and all(k in vars(s) for k in info) and not fired:
        res, v = call_out(lambda: s.verify("raise", "read"))
        if res == "raised":
            unexpected("not-valid", what + ": complete object", v)


def verify(w, m, st, rng, what):
    s = m["sofa"]
    info = w.info(m["name"])
    before = gen.fingerprint(s)
    how = rng.choice(["return", "print", "ignore"])
    res, v, fired = guarded(w.env, st, lambda: s.verify(how, "read"))
    now = gen.fingerprint(s)
    got = gen.content(s, types_of(info))
    for k in now:
        if k not in before:
            r = info.get(k)
            if not r or "m" not in (r[1] or "") or \
                    got[k] != default_of(r):
                raise Violation("completed", f"{what}: added {k} as "
                                             f"{gen.show(got.get(k))}")
            m["types"][k] = types_of(info)[k]
    gen.unchanged("completed", before,
                  {k: now[k] for k in now if k in before}, what)
    if res == "raised":
        if not fired and "GLOBAL_DataType" in before:
            unexpected("verify-raised", what, v)
        return
    for k, r in info.items():
        if "m" in (r[1] or "") and k not in now:
            raise Violation("completed", f"{what}: {k} was not added")


def listing(w, m, rng, what):
    s = m["sofa"]
    # (the meta data are those of the last verification)
    if call_out(lambda: s.verify("ignore", "read"))[0] == "raised":
        return
    name = m["name"]
    rows = {gen.sofar_name(r[0]): r for r in w.tabs[name][1]}
    kind = rng.choice(["all", "mandatory", "optional", "read only", "data"])
    res, v = call_out(lambda: s.info(kind))
    what += f" {name} {kind}"
    if res == "raised":
        unexpected("info", what, v)
    text = v[1]
    for k in entries(s):
        if k not in rows:
            continue
        _, d, f, dims, t, c = rows[k]
        f = f or ""
        shown = kind == "all" or kind == "mandatory" and "m" in f or \
            kind == "optional" and "m" not in f or \
            kind == "read only" and "r" in f or \
            kind == "data" and t != "attribute"
        line = f"{k} : {t}" + (f" ({dims.upper()})" if dims else "") + (
            ", mandatory" if "m" in f else ", optional") + (
            ", read only" if "r" in f else "")
        if shown != bool(re.search("^" + re.escape(line) + "$", text,
                                   re.M)):
            raise Violation("info", f"{what}: '{line}' is "
                            f"{'not ' if shown else ''}listed")
        if not shown and re.search("^" + re.escape(k) + " : ", text, re.M):
            raise Violation("info", f"{what}: {k} is listed")
    k = rng.choice([k for k in entries(s) if k in rows])
    res, v = call_out(lambda: s.info(k))
    if res == "raised":
        unexpected("info", f"{what} {k}", v)
    f = rows[k][2] or ""
    part = re.search("^" + k + "\n((?:    .*\n)+)", v[1], re.M)
    part = part.group(1) if part else ""
    for need in (f"    type: {rows[k][4]}\n",
                 f"    mandatory: {'m' in f}\n",
                 f"    read only: {'r' in f}\n"):
        if need not in part:
            raise Violation("info", f"{name} {k}: no line {need!r} in "
                                    f"{v[1]!r}")


def retable(w, rng):
    """A convention is replaced by one with further entries."""
    name = rng.choice(sorted(w.tabs))
    if w.pool and rng.random() < 0.8:
        name = rng.choice(w.pool)["name"]
    dep, rows = w.tabs[name]
    w.tabs[name] = (dep, enrich(rows, rng.randrange(1 << 30), False))
    with w.env.quiet():
        p = os.path.join(w.env.db, "conventions",
                         "deprecated" if dep else "", name + ".json")
        with open(p, "w") as f:
            json.dump(convdb.json_dict(w.tabs[name][1]), f)


def step(w, st, what):
    rng = random.Random(st["seed"])
    do = st["do"]
    m = w.pool[st["of"] % len(w.pool)] if w.pool and "of" in st else None
    if do == "new":
        return create(w, st, rng, what)
    if m is None:
        return
    s = m["sofa"]
    if do == "strip":
        strip(w, m, rng)
    elif do == "scribble":
        scribble(m, rng)
    elif do == "add-missing":
        complete(w, m, st, rng, what)
    elif do == "verify":
        verify(w, m, st, rng, what)
    elif do == "info":
        listing(w, m, rng, what)
    elif do == "table":
        if w.env.db.startswith(w.env.base + "/"):
            retable(w, rng)
    elif do == "custom":
        n = rng.choice(["GLOBAL_Own", "Own"])
        if n not in vars(s):
            with mute():
                if n == "Own":
                    s.add_variable(n, [1, 2, 3], "double", "IC")
                    m["types"][n] = ("double", "IC")
                else:
                    s.add_attribute(n, "mine")
                    m["types"][n] = ("attribute", None)
            m["custom"].append(n)
    elif do == "copy":
        c = copy.deepcopy(s) if rng.random() < 0.5 else s.copy()
        w.pool.append({**m, "sofa": c, "types": dict(m["types"]),
                       "custom": list(m["custom"])})
    elif do == "roundtrip":
        # a new object of any convention can be stored and read
        name = rng.choice(gen.WRITABLE)
        conv, ver = name.split("_")
        with mute():
            t = must("not-created", sofar.Sofa, conv, version=ver)
            if "GLOBAL_RoomDescription" in vars(t):
                t.GLOBAL_RoomDescription = "x"
        must("not-written", sofar.write_sofa, "r", t)
        r = must("not-read", sofar.read_sofa, "r", True, False)
        ty = types_of(w.info(name))
        a, b = gen.content(t, ty), gen.content(r, ty)
        a.pop("GLOBAL_DateModified", None)
        b.pop("GLOBAL_DateModified", None)
        gen.same("roundtrip", a, b, f"{what} {name}")


def run(env, plan):
    w = World(env, plan)
    for n, st in enumerate(plan["steps"]):
        what = f"step {n} {st['do']}"
        old = [(m, gen.fingerprint(m["sofa"])) for m in w.pool]
        mine = w.pool[st["of"] % len(w.pool)] if w.pool and "of" in st and \
            st["do"] != "new" else None
        step(w, st, what)
        for k, (m, fp) in enumerate(old):
            if m is not mine:
                gen.unchanged("other-object", fp, gen.fingerprint(m["sofa"]),
                              f"{what}: object {k}")
    env.state = str([sorted(gen.fingerprint(m["sofa"]).items())
                     for m in w.pool])
