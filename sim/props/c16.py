"""C16: verification depends on the content only."""
import copy
import json
import os
import pickle
import random

import numpy as np

from .. import breaks, convdb, gen, ops
from ..kernel import Discard, Violation, call, must, mute
from . import c10
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run takes an object through a seeded history (edits, custom "
        "entries, deletions, invalid data and repairs, failing operations, "
        "I/O errors, Ctrl-C, verifications in all modes, copies, files, "
        "updates of conventions and rules) and compares every verdict, "
        "dimension and listing with those of freshly created objects of the "
        "same content (in the same and in another order); non-trivial if "
        "something was compared after an edit")
STATE = "hash of the verdicts and of the final object"
KINDS = (["edit"] * 3 + ["add", "add", "attr", "delete", "delete", "add-bad",
                         "attr-bad", "set-bad", "del-bad", "add-present"] +
         ["break"] * 5 + ["repair"] * 4 + ["verify"] * 3 + ["add-missing",
         "write", "dims", "copy", "pickle", "file", "file", "readd", "readd",
         "resize", "resize", "resize", "db", "unlocked-delete", "reshape"])
DIMS = ["I", "M", "MR", "MI", "IC", "MC", "W", "MW", "WV", "N", "RN"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "new": gen.gen_spec(rng, small=True),
            "origin": rng.choice(c10.ORIGIN), "steps": []}
    for _ in range(rng.choice([2, 4, 6, 9] if tier == "quick"
                              else [4, 8, 16])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "fault": None, "kind": rng.choice(
                  [k for k in sorted(breaks.ALL) if k != "convention"]),
              "judge": [[rng.choice(["return", "return", "raise", "print",
                                     "ignore"]),
                         rng.choice(["read", "write"])]
                        for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
        if rng.random() < 0.2:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint"]),
                "at": rng.randrange(1000), "arg": 0,
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": 0,
                "where": rng.choice(["/rules/", "/conventions/"])}
        plan["steps"].append(st)
    plan["steps"][-1]["judge"] = plan["steps"][-1]["judge"] or [
        ["return", "write"]]
    return plan


class World:
    def __init__(self, env):
        self.env, self.custom, self.undo = env, {}, []
        self.tabs = copy.deepcopy(gen.TABLES)
        self.rules = convdb.rules()
        self.banned, self.demanded = {}, {}
        track(self.custom)

    def info(self, s):
        """Entries of the convention the object names."""
        conv = "_".join(str(vars(s).get("GLOBAL_SOFAConventions" + x))
                        for x in ("", "Version"))
        if conv not in self.tabs:
            return conv, None
        return conv, {gen.sofar_name(r[0]): r for r in self.tabs[conv][1]}


def track(custom):
    """Remember how custom entries were defined."""
    add_v, add_a = sofar.Sofa.add_variable, sofar.Sofa.add_attribute

    def add_variable(self, name, value, dtype, dimensions):
        r = add_v(self, name, value, dtype, dimensions)
        custom[name] = (dtype, dimensions)
        return r

    def add_attribute(self, name, value):
        r = add_a(self, name, value)
        custom[name] = ("attribute", None)
        return r
    sofar.Sofa.add_variable = add_variable
    sofar.Sofa.add_attribute = add_attribute


def twin(w, s, rng=None):
    """A fresh object with the content of s."""
    conv, info = w.info(s)
    if info is None:
        raise Discard("unknown convention " + conv)
    name, ver = conv.split("_")
    saved = dict(w.custom)
    with mute():
        t = must("twin", sofar.Sofa, name, version=ver, verify=False)
    t.protected = False
    for k in [k for k in vars(t) if not k.startswith("_")]:
        delattr(t, k)
    t.protected = True
    items = [(k, copy.deepcopy(v)) for k, v in vars(s).items()
             if not k.startswith("_")]
    if rng:
        rng.shuffle(items)
        # attributes can only be added to existing variables
        items.sort(key=lambda i: saved.get(i[0], ("",))[0] == "attribute")
    for k, v in items:
        if k in info:
            t.protected = False
            setattr(t, k, v)
            t.protected = True
            continue
        if k not in saved:
            raise Discard("unknown entry " + k)
        dtype, dims = saved[k]
        if dtype != "attribute":
            t.add_variable(k, v, dtype, dims)
            continue
        var = k[:k.rindex("_")]
        temp = var not in vars(t) and var != "GLOBAL"
        if temp and var in info:
            t.protected = False
            setattr(t, var, 1)
            t.protected = True
        elif temp:
            t.add_variable(var, 1, "double", "I")
        t.add_attribute(k, v)
        if temp:
            t.protected = False
            delattr(t, var)
            t.protected = True
    w.custom.clear()
    w.custom.update(saved)
    t.protected = s.protected
    a, b = gen.fingerprint(s), gen.fingerprint(t)
    if a != b:
        raise Discard("twin differs " + str([k for k in set(a) | set(b)
                                             if a.get(k) != b.get(k)]))
    return t


def answer(fn):
    """What the user gets to see, independent of the order of lines."""
    with mute() as (out, warned):
        try:
            v = fn()
            res = ("ok", sorted(v.split("\n")) if isinstance(v, str)
                   else repr(v))
        except Exception as e:  # noqa: B902
            res = ("raised", type(e).__name__, sorted(str(e).split("\n")))
        return [res, sorted(out.getvalue().split("\n")),
                sorted("\n".join(str(x.message) for x in warned).split("\n"))]


def verdict(a):
    """Accepted or not?"""
    if a[0][0] == "raised":
        return "rejected"
    text = "\n".join(a[0][1] if isinstance(a[0][1], list) else []) + \
        "\n".join(a[1])
    return "rejected" if "ERRORS" in text else "accepted"


def differ(cls, what, a, b):
    if a != b:
        raise Violation(cls, f"{what}: {str(a)[:600]} but a fresh object "
                        f"with the same content gives {str(b)[:600]}")


def judge(w, s, modes, rng, what):
    t = twin(w, s)
    u = twin(w, s, random.Random(rng.randrange(1 << 30)))
    accepted = None
    conv, _ = w.info(s)
    for how, mode in modes:
        q = f"{what} verify({how}, {mode})"
        bad = [k for k, v in w.banned.items() if vars(s).get(k) in v]
        if how == "raise":
            bad += [k for k in w.demanded.get(conv, ()) if k not in vars(s)]
        a = answer(lambda: s.verify(how, mode))
        b = answer(lambda: t.verify(how, mode))
        c = answer(lambda: u.verify(how, mode))
        differ("verdict", q, a, b)
        if bad and how != "ignore" and verdict(a) == "accepted":
            raise Violation("outdated", f"{q}: accepted {bad} after the "
                            f"conventions were updated")
        if how not in ("ignore", "raise") and a[0][0] == "ok":
            no = [k for k in w.demanded.get(conv, ()) if k not in vars(s)]
            if no:
                raise Violation("outdated", f"{q}: {no} not added after the "
                                f"conventions were updated")
        if how != "ignore":
            differ("verdict", q + " order", verdict(a), verdict(c))
        r = answer(lambda: s.verify(how, mode))
        r2 = answer(lambda: t.verify(how, mode))
        differ("repeated", q + " again", r, r2)
        if a != r and not any("ded mandatory data" in x for y in
                              [a[1], a[2], a[0][1] if isinstance(
                                  a[0][1], list) else []] for x in y) and \
                how != "ignore":
            raise Violation("repeated", f"{q}: {a}, then {r}")
        gen.unchanged("twin-content", gen.fingerprint(t), gen.fingerprint(s),
                      q)
        w.env.probe("nontrivial")
        if how == "return":
            accepted = verdict(r) == "accepted"
    for d in sorted(set("MRNECIS") | {x for _, (_, ds) in
                                      w.custom.items() if ds
                                      for x in ds.upper()}):
        differ("dimension", f"{what} get_dimension({d})",
               answer(lambda: s.get_dimension(d)),
               answer(lambda: t.get_dimension(d)))
    differ("dimension", f"{what} list_dimensions",
           answer(lambda: s.list_dimensions),
           answer(lambda: t.list_dimensions))
    if accepted:
        shapes(w, s, what)
        differ("listing", f"{what} inspect", answer(s.inspect),
               answer(t.inspect))
        differ("listing", f"{what} info", answer(s.info), answer(t.info))


def shapes(w, s, what):
    """Dimensions of an accepted object, from its content."""
    conv, info = w.info(s)
    for k in ("Data_IR", "Data_Real"):
        if k not in vars(s) or info[k][3].lower() != "mrn":
            continue
        v = np.asarray(vars(s)[k])
        n = tuple(v.shape) + (1,) * (3 - v.ndim)
        got = tuple(s.get_dimension(d) for d in "MRN")
        if n[:3] != got:
            raise Violation("dimension", f"{what}: {k} has shape {v.shape} "
                            f"but M, R, N are {got}")


def run(env, plan):
    w = World(env)
    for k in range(len(plan["steps"])):
        if plan["steps"][k]["do"] == "db":
            env.fresh_db(convdb.files())
            break
    b = c10.make(env, plan)
    out = []
    for n, st in enumerate(plan["steps"]):
        rng = random.Random(st["seed"])
        what = f"step {n} ({st['do']})"
        fn = step_fn(env, w, b, st, rng)
        if fn is not None:
            if st["fault"]:
                ops.place(env, st["fault"], ops.dry(env, fn),
                          st["fault"]["where"])
            res, v = call(fn)
            nf = env.disarm()
            out.append((st["do"], res, nf))
            env.ev(st["do"], res, nf)
        if vars(b.sofa).get("_protected") is not None:
            b.sofa.protected = True
        if st["judge"]:
            judge(w, b.sofa, st["judge"], rng, what)
    env.state = str((out, sorted(gen.fingerprint(b.sofa).items())))


def step_fn(env, w, b, st, rng):
    do = st["do"]
    s = b.sofa
    customs = [k for k in vars(s) if k in w.custom and
               k not in (w.info(s)[1] or {})]
    if do == "break":
        def go():
            undo = breaks.apply(b, st["kind"], rng)
            if undo:
                w.undo.append(undo)
        return go
    if do == "repair":
        return w.undo.pop() if w.undo else None
    if do == "readd":
        # a custom entry is deleted and added again with another definition
        k = rng.choice([k for k in customs if w.custom[k][0] != "attribute"]
                       or ["NewA"])
        d = rng.choice(DIMS)
        v = np.ones([rng.choice([1, 1, 2, 3, b.spec["M"], b.spec["R"]])
                     if c not in "IC" else {"I": 1, "C": 3}[c] for c in d])
        unlock = rng.random() < 0.3

        def readd():
            if k in vars(s):
                s.protected = not unlock
                delattr(s, k)
                s.protected = True
            if rng.random() < 0.25:
                s.add_variable(k, "text", "string", "IS")
            else:
                s.add_variable(k, v, "double", d)
        return readd
    if do == "unlocked-delete":
        k = rng.choice([k for k in vars(s) if not k.startswith("_") and
                        not k.startswith("GLOBAL_SOFAConv")])

        def delete():
            s.protected = False
            delattr(s, k)
        return delete
    if do in ("resize", "reshape"):
        # the number of measurements etc. changes
        ax = rng.choice([0, 0, 1, 2]) if do == "resize" else None
        m = rng.choice([1, 2, 3, 4])
        keys = [k for k in vars(s) if not k.startswith("_") and
                isinstance(vars(s)[k], np.ndarray) and
                vars(s)[k].dtype.kind in "fi"]
        only = rng.random() < 0.4

        def resize():
            old = {k: vars(s)[k] for k in keys}
            todo = [k for k in keys if k.startswith("Data_")]
            if only:
                todo = [rng.choice(keys)] if keys else []
            for k in todo:
                v = old[k]
                if do == "reshape":
                    v = np.atleast_2d(v).T
                elif v.ndim > ax:
                    v = np.take(v, [0] * m, axis=ax)
                setattr(s, k, v)
        return resize
    if do == "db":
        return lambda: change_db(env, w, s, rng)
    if do == "pickle":
        def roundtrip():
            b.sofa = pickle.loads(pickle.dumps(b.sofa))
            w.undo.clear()
        return roundtrip
    if do == "copy":
        def cp():
            b.sofa = b.sofa.copy()
        return cp
    if do == "file":
        def file():
            sofar.write_sofa("f", b.sofa)
            new = sofar.read_sofa_as_netcdf("f") if rng.random() < 0.2 \
                else sofar.read_sofa("f", rng.random() < 0.5, False)
            b.sofa = new
            w.undo.clear()
        return file
    return c10.step_fn(b, do, st["seed"], "out")


def change_db(env, w, s, rng):
    """Conventions or rules are updated."""
    conv, info = w.info(s)
    if info is None:
        return
    dep, rows = w.tabs[conv]
    rows = list(rows)
    new = {}
    how = rng.choice(["mandatory", "row", "custom", "rule", "rule", "dims"])
    if how == "mandatory":
        i = rng.choice([i for i, r in enumerate(rows)
                        if r[0] in ("GLOBAL:Comment", "GLOBAL:References",
                                    "GLOBAL:Origin", "GLOBAL:History",
                                    "GLOBAL:Title")])
        rows[i] = rows[i][:2] + ("m",) + rows[i][3:]
        w.demanded.setdefault(conv, set()).add(gen.sofar_name(rows[i][0]))
    elif how == "row":
        n = "GLOBAL:Added" + rng.choice("AB")
        if n not in [r[0] for r in rows]:
            rows.append((n, "x", rng.choice(["m", "rm", None]), None,
                         "attribute", ""))
            if rows[-1][2]:
                w.demanded.setdefault(conv, set()).add(gen.sofar_name(n))
    elif how == "custom":
        n = rng.choice(["NewA", "NewB"])
        if n not in [r[0] for r in rows]:
            rows.append((n, 0, None, rng.choice(["I", "M", "I, M"]),
                         "double", ""))
    elif how == "rule":
        r = rng.choice(["GLOBAL:RoomType", "GLOBAL:Version",
                        "ListenerPosition:Type"])
        if len(w.rules.get(r, {}).get("value") or []) > 1:
            v = w.rules[r]["value"].pop(rng.randrange(
                len(w.rules[r]["value"])))
            w.banned.setdefault(gen.sofar_name(r), []).append(v)
            if rng.random() < 0.7:
                new = {gen.sofar_name(r): v}
    else:
        i = rng.choice([i for i, r in enumerate(rows)
                        if r[0] in ("SourcePosition", "ListenerPosition")])
        rows[i] = rows[i][:3] + (rng.choice(["IC", "MC", "IC, MC"]),) + \
            rows[i][4:]
    w.tabs[conv] = (dep, rows)
    with env.quiet():
        base = os.path.join(env.db, "conventions",
                            "deprecated" if dep else "", conv + ".json")
        with open(base, "w") as f:
            json.dump(convdb.json_dict(rows), f)
        with open(os.path.join(env.db, "rules", "rules.json"), "w") as f:
            json.dump(w.rules, f)
    s.protected = False
    for k, v in new.items():
        setattr(s, k, v)
    s.protected = True
