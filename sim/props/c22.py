"""C22: custom entries are accepted if and only if they are legal, and keep
their definition."""
import os
import pickle
import random
import re

import numpy as np

from .. import convdb, gen, ops, refverify
from ..kernel import Violation, call, must, mute
from . import c21
import sofar

RUNS = {"quick": 2500, "thorough": 50000}
RULE = ("a run adds, changes, deletes and adds again custom entries (legal "
        "and illegal ones) of several objects, which are copied, pickled, "
        "written, read, upgraded, completed and verified in between, with "
        "I/O errors at times; after each step all objects are compared with "
        "a model of their entries and definitions; non-trivial if a custom "
        "entry was judged")
STATE = "hash of the definitions after each step"
NAMES = ["Temperature", "Humidity", "e", "Data", "Mic", "WindSpeed",
         "DataQuality", "x", "ListenerPositionRaw", "Emitter", "S", "M", "N2",
         "GLOBALi", "data", "Units", "Receiver"]
BAD_NAMES = ["Two_Words", "Data_Extra", "GLOBAL_Extra", "_x", "x_", "verify",
             "copy", "protected", "ListenerPosition", "GLOBAL_Title",
             "SourcePosition_Units", "info", "add_variable", "__class__",
             "delete", "ReceiverPosition"]
ATTRS = ["Note", "Units", "Type", "x", "LongName", "name", "Data", "GLOBAL"]
BAD_ATTRS = ["Foo", "GLOBAL_a_b", "Foo_Bar", "Foo_Bar_Note", "Data_Foo_Note",
             "Data_Foo_Bar_Note", "GLOBALx", "Source_Position_Note", "x_y_z",
             "Data_Note", "ListenerPosition_View_Note", "Listenerposition_Note",
             "Units", "Data_x_y_z_a", "Data__x_y", "GLOBALx_Note",
             "GLOBAL2_Title"]
DIMS = ["I", "M", "MI", "MC", "IC", "R", "RCI", "MR", "MRN", "MRE", "E", "N",
        "Q", "MQ", "QM", "IQ", "QP", "MRNE", "CI", "QI", "MII", "NI", "PQ",
        "QQ", "MP", "P"]
SDIMS = ["MS", "IS", "QS", "RS", "ES", "MQS", "MRS", "PS"]
DTYPES = ["Double", "float", "str", "", "int", "char", "attributes", None,
          "S1", 5]
KINDS = (["add-var"] * 6 + ["add-attr"] * 4 + ["bad-var"] * 3 +
         ["bad-attr"] * 3 + ["set"] * 3 + ["delete"] * 5 + ["again"] * 4 +
         ["copy", "pickle", "verify", "verify", "info", "missing"] +
         ["file"] * 3 + ["upgrade"] * 2)
UPGRADES = {}
for _n, _u in convdb.upgrades().items():
    for _vs, _ts, _ in _u["from_to"]:
        for _v in _vs:
            UPGRADES.setdefault(f"{_n}_{_v}", []).extend(_ts)


def gen_plan(rng, tier, i):
    convs = sorted(UPGRADES) if rng.random() < 0.3 else gen.WRITABLE
    convs = [c for c in convs if c in gen.TABLES]
    spec = gen.gen_spec(rng, convs=convs, small=True, custom=False)
    spec["Q"], spec["P"] = rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
    plan = {"env": ops.gen_env(rng), "new": spec, "steps": []}
    for _ in range(rng.choice([2, 4, 8, 12] if tier == "quick"
                              else [4, 12, 20])):
        st = {"do": rng.choice(KINDS + ["upgrade"] * 6 *
                               (spec["conv"] in UPGRADES)), "seed": rng.randrange(1 << 30),
              "obj": rng.randrange(3), "fault": None}
        if rng.random() < 0.15:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "short",
                                                   "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": 0,
                "where": rng.choice(["/rules/", "/conventions/"])}
        plan["steps"].append(st)
    return plan


class Obj:
    """An object, and what the model knows about it."""

    def __init__(self, sofa, conv, custom, model):
        self.sofa, self.conv = sofa, conv
        self.custom, self.model = custom, model

    def defs(self):
        d = {k: (v[0], v[1]) for k, v in self.table().items()}
        for k, v in self.custom.items():
            d.setdefault(k, v)
        return d

    def table(self):
        return {k: (t, dims, bool(f and "m" in f), default)
                for k, (default, f, dims, t)
                in gen.conv_info(self.conv).items()}

    def entries(self):
        return {k: v for k, v in vars(self.sofa).items()
                if not k.startswith("_")}

    def twin(self, sofa):
        return Obj(sofa, self.conv, dict(self.custom), dict(self.model))


def custom_dims(dims):
    return "".join(d if d in gen.STD else d.lower() for d in dims.upper())


def run(env, plan):
    spec = plan["new"]
    b = must("build", gen.build, spec)
    w = c21.World(env)
    objs = [Obj(b.sofa, spec["conv"], {}, gen.fingerprint(b.sofa))]
    states = []
    for n, st in enumerate(plan["steps"]):
        o = objs[st["obj"] % len(objs)]
        what = f"step {n} ({st['do']})"
        rng = random.Random(st["seed"])
        step(env, w, objs, o, st, rng, spec, what)
        for k, x in enumerate(objs):
            check(env, w, x, f"{what} of object {objs.index(o)}: object {k}",
                  rng, x is o)
        states.append([sorted(x.custom.items()) for x in objs])
    env.state = str(states)


# -- the steps ---------------------------------------------------------------
def value(o, spec, rng, typ, dims):
    """A value that fits, as given and as stored."""
    size = {"Q": spec["Q"], "P": spec["P"], "I": 1, "C": 3}
    have = refverify.sizes({k: v for k, v in o.entries().items()
                            if k in o.defs()}, o.defs())
    for d, v in have.items():
        size[d] = next(iter(v))
    shape = [size.get(d.upper(), 1) for d in dims if d.upper() != "S"]
    if typ == "string":
        v = gen.words(rng, tuple(shape))
        return rng.choice([v, v.reshape(v.shape + (1,))])
    v = gen.numbers(rng, tuple(shape), False)
    return rng.choice([v, v, v.astype("f4"), v * 0,
                       v.tolist() if len(shape) > 1 else v])


def odd(rng):
    return rng.choice(["text", 1.5, np.zeros((7, 11)), np.array(["a", "b"]),
                       np.zeros(13), np.array([1j]), 2, True, np.zeros((5,))])


def stored(v):
    """What the object holds after a value was assigned."""
    if not isinstance(v, (str, np.ndarray)):
        v = np.atleast_2d(v)
        if v.size == 1:
            v = v.flatten()[0]
    return gen.value_print(v)


def accept(env, o, k, v, typ, dims, fn, what):
    res, e = call(fn)
    if res == "raised":
        raise Violation("refused", f"{what}: adding {k} ({typ}, {dims}) "
                        f"raised {type(e).__name__}: {e}")
    o.model[k] = stored(v)
    if k not in o.table():
        o.custom[k] = (typ, custom_dims(dims) if dims else None)
    env.probe("nontrivial")
    env.probe("added-" + typ)


def refuse(env, o, k, fn, what):
    res, e = call(fn)
    if res == "ok":
        raise Violation("accepted", f"{what}: adding {k} was possible")
    if not isinstance(e, ValueError):
        raise Violation("wrong-exception", f"{what}: adding {k} raised "
                        f"{type(e).__name__}: {e}")
    env.probe("nontrivial")
    env.probe("refused")


def step(env, w, objs, o, st, rng, spec, what):
    s, do = o.sofa, st["do"]
    have = o.entries()
    var = [k for k in have if o.defs()[k][1] is not None]
    mine = sorted(k for k in o.custom if k in have)
    if do == "again":
        # the same name with another definition
        if not mine:
            return
        k = rng.choice(mine)
        delete(env, o, k, what)
        have = o.entries()
        var = [x for x in var if x in have]
        mine.remove(k)
        if o.defs().get(k) or "_" in k:
            do = "add-attr" if "_" in k else "none"
        else:
            do = "add-var"
    else:
        k = None
    if do == "add-var":
        later = sorted({n for t in UPGRADES.get(o.conv, ())
                        for n in gen.conv_info(t) if "_" not in n} -
                       set(o.defs()))
        k = k or rng.choice(later if later and rng.random() < 0.5 else NAMES)
        typ = rng.choice(["double", "double", "string"])
        dims = rng.choice(SDIMS if typ == "string" else DIMS)
        v = value(o, spec, rng, typ, dims) if rng.random() < 0.85 \
            else odd(rng)
        dims = rng.choice([dims, dims, dims.lower()])
        if k in have:
            refuse(env, o, k, lambda: s.add_variable(k, v, typ, dims), what)
        else:
            accept(env, o, k, v, typ, dims,
                   lambda: s.add_variable(k, v, typ, dims), what)
    elif do == "add-attr":
        if not k:
            parent = rng.choice(var + mine * 4 + ["GLOBAL"] * 5 + [
                x for x in var if x.startswith("Data_")] * 2)
            parent = parent if parent in var else "GLOBAL"
            k = parent + "_" + rng.choice(ATTRS)
        v = rng.choice(gen.WORDS) if rng.random() < 0.95 else odd(rng)
        if k.endswith("Units") and isinstance(v, str):
            v = rng.choice([v.lower(), "metre", "kelvin"])
        p = k.rpartition("_")[0]
        if p != "GLOBAL" and p not in have:
            return  # (the parent was deleted before)
        if k in have:
            refuse(env, o, k, lambda: s.add_attribute(k, v), what)
        else:
            accept(env, o, k, v, "attribute", None,
                   lambda: s.add_attribute(k, v), what)
    elif do == "bad-var":
        name, typ, dims = rng.choice(NAMES), "double", "I"
        if name in have:
            name = "Unused"
        bad = rng.choice(["name", "name", "type", "dims"])
        if bad == "name":
            name = rng.choice(BAD_NAMES)
            typ, dims = rng.choice([("double", "I"), ("string", "IS")])
            if name in ("ListenerPosition", "GLOBAL_Title", "ReceiverPosition",
                        "SourcePosition_Units") and name not in have:
                name = "Two_Words"
        elif bad == "type":
            typ = rng.choice(DTYPES)
        else:
            typ, dims = rng.choice(["double", "string"]), None
        refuse(env, o, f"{name} ({typ}, {dims})", lambda: s.add_variable(
            name, 1. if typ != "string" else "a", typ, dims), what)
    elif do == "bad-attr":
        name = rng.choice(BAD_ATTRS)
        p = name.rpartition("_")[0]
        if p in o.defs() and (p.count("_") == 0 or p.startswith("Data_")):
            return  # (legal, there is a variable of this name)
        refuse(env, o, name, lambda: s.add_attribute(name, "x"), what)
    elif do == "set":
        if not mine:
            return
        k = rng.choice(mine)
        typ, dims = o.custom[k]
        v = odd(rng) if rng.random() < 0.2 else rng.choice(gen.WORDS) \
            if typ == "attribute" else value(o, spec, rng, typ, dims)
        res, e = call(setattr, s, k, v)
        if res == "raised":
            raise Violation("not-assigned", f"{what}: assigning {k} raised "
                            f"{type(e).__name__}: {e}")
        o.model[k] = stored(v)
    elif do == "delete":
        if mine:
            delete(env, o, rng.choice(mine), what)
    elif do in ("copy", "pickle"):
        t = s.copy() if do == "copy" else pickle.loads(pickle.dumps(s))
        gen.same("copied", gen.content(s, o.defs()),
                 gen.content(t, o.defs()), what)
        if len(objs) < 3 and rng.random() < 0.7:
            objs.append(o.twin(t))
            o = objs[-1]
        o.sofa = t
        o.model = gen.fingerprint(t)  # (pickling changes the byte order)
    elif do == "verify":
        how, mode = rng.choice(["raise", "return", "ignore", "print"]), \
            rng.choice(["read", "write"])
        failing(env, o, st, lambda: s.verify(how, mode))
    elif do == "info":
        failing(env, o, st, lambda: s.info(rng.choice(
            ["all", "data", "optional"] + mine)))
    elif do == "missing":
        res, _ = failing(env, o, st, lambda: s.add_missing(verbose=False))
        if res == "ok":
            completed(o)
    elif do == "file":
        file(env, w, o, st, rng, what)
    elif do == "upgrade":
        upgrade(env, o, st, rng, what)


def completed(o):
    """Entries of the convention that were missing were added."""
    t = o.table()
    for k, v in gen.fingerprint(o.sofa).items():
        if k not in o.model and k in t:
            o.model[k] = v


def failing(env, o, st, fn):
    if st["fault"]:
        ops.place(env, st["fault"], ops.dry(env, fn), st["fault"]["where"])
    res, v = call(fn)
    n = env.disarm()
    env.ev(st["do"], res, n)
    return (res if not n else "fault" if res == "raised" else "ok"), v


def delete(env, o, k, what):
    res, e = call(o.sofa.delete, k)
    if res == "raised":
        raise Violation("not-deleted", f"{what}: deleting {k} raised "
                        f"{type(e).__name__}: {e}")
    del o.custom[k]
    o.model.pop(k)
    env.probe("nontrivial")
    env.probe("deleted")


def reference(w, o, mode):
    # entries of the convention that are missing are none of this property
    return refverify.verify(
        o.entries(), o.table(), o.custom, w.rules, w.aliases,
        w.deps["GLOBAL:SOFAConventions"], mode, False)


def file(env, w, o, st, rng, what):
    ref = reference(w, o, "write")
    comp = rng.choice([0, 4, 9])
    res, e = failing(env, o, st, lambda: sofar.write_sofa("f", o.sofa, comp))
    if res == "fault":
        return
    if bool(ref.errors) != (res == "raised"):
        raise Violation("written" if ref.errors else "not-written", (
            f"{what}: write_sofa {res} {e!r:.400}; expected "
            f"{ref.errors[:6]}"))
    if res == "raised":
        return
    defs = o.defs()
    with env.quiet():
        r = gen.raw("f.sofa")
    for k, (typ, dims) in o.custom.items():
        if dims is None:
            continue
        have = r["vars"].get(k)
        if not have or have[0] != tuple(dims.upper()) or \
                have[1] != {"double": "float64", "string": "|S1"}[typ]:
            raise Violation("file", (
                f"{what}: {k} ({typ}, {dims}) is "
                f"{have and have[:2]} in the file"))
    types = {k: v for k, v in defs.items()}
    want = gen.content(o.sofa, types)
    verbose = rng.random() < 0.5
    args = ("f", rng.choice(["auto", True, False]), verbose)
    if rng.random() < 0.2:
        verbose, args = True, args[:2]

    def read():
        with mute() as (out, _):
            t = sofar.read_sofa(*args)
            return t, out.getvalue()
    res, t = failing(env, o, st, read)
    if res == "fault":
        return
    if res == "raised":
        raise Violation("not-read", f"{what}: {type(t).__name__}: {t}")
    t, text = t
    shown = re.findall(r"[^\s,]+", text.partition("--\n")[2])
    if sorted(shown) != (sorted(o.custom) if verbose else []):
        raise Violation("notice", (
            f"{what}: read_sofa(verbose={verbose}) tells {text!r}, custom are "
            f"{sorted(o.custom)}"))
    gen.same("read", want, gen.content(t, types), what)
    o.sofa = t
    o.model = gen.fingerprint(t)
    env.probe("reread")


def upgrade(env, o, st, rng, what):
    targets = UPGRADES.get(o.conv)
    if not targets:
        return
    t = rng.choice(targets)
    before = gen.content(o.sofa, o.defs())
    res, e = failing(env, o, st, lambda: o.sofa.upgrade_convention(
        t, verify=False))
    v = vars(o.sofa)
    now = f"{v['GLOBAL_SOFAConventions']}_{v['GLOBAL_SOFAConventionsVersion']}"
    if now == t:
        o.conv = t
        # custom entries that the new convention knows are not custom anymore
        for k in [k for k in o.custom if k in o.table()]:
            del o.custom[k]
            env.probe("swallowed")
        # (what else an upgrade does is C18)
        after = gen.content(o.sofa, o.defs())
        for k in o.custom:
            if k in before and after.get(k) != before[k]:
                raise Violation("lost", (
                    f"{what} to {t}: {k} was {before[k]!s:.200}, is "
                    f"{after.get(k)!s:.200}"))
        o.model = gen.fingerprint(o.sofa)
        env.probe("upgraded")


# -- what has to hold after every step -----------------------------------------
def check(env, w, o, what, rng, full):
    s = o.sofa
    have = gen.fingerprint(s)
    if st_missing(o):
        completed(o)
    gen.unchanged("entries", o.model, have, what)
    if not full:
        # another object: its definitions are checked by the verdict only
        if rng.random() < 0.5:
            return
    # the definition as shown
    def shown():
        with mute() as (out, _):
            s.info("all")
            return out.getvalue()
    res, text = call(shown)
    if res == "raised":
        raise Violation("info", f"{what}: info raised {text!r}")
    for k, (typ, dims) in o.custom.items():
        line = f"{k} : {typ}" + (f" ({dims.upper()})" if dims else "") + \
            ", optional"
        if line not in text.split("\n"):
            m = re.findall(r"^%s : .*" % re.escape(k), text, re.M)
            raise Violation("info", f"{what}: info shows {m}, not {line!r}")
        env.probe("definition-shown")
    # the definition as verified
    if st_missing(o):
        return
    w.custom = dict(o.custom)
    c21.judge(w, s, "return", rng.choice(["read", "write"]), what)
    # custom dimensions
    ref = reference(w, o, "read")
    if ref.errors:
        return
    size = refverify.sizes(o.entries(), o.defs())
    for d in ("Q", "P"):
        res, v = call(s.get_dimension, d)
        want = next(iter(size[d])) if d in size else None
        if (res == "ok") != (want is not None) or \
                res == "ok" and v != want:
            raise Violation("dimension", f"{what}: get_dimension({d}): {v}, "
                            f"not {want}")
        env.probe("dimension-" + ("none" if want is None else "custom"))


def st_missing(o):
    t = o.table()
    return any(v[2] and k not in vars(o.sofa) for k, v in t.items())
