"""C21: verify accepts what the conventions and rules allow, nothing else."""
import copy
import json
import os
import pickle
import random
import re

import numpy as np

from .. import breaks, convdb, gen, ops, refverify
from ..kernel import Discard, Violation, call, must, mute
from . import c10
import sofar

RUNS = {"quick": 3500, "thorough": 80000}
RULE = ("a run takes an object through a seeded history (values, units, "
        "shapes, types, custom entries, deletions, copies, files) while "
        "conventions, rules, unit aliases and deprecations are updated with "
        "random ones and reading them fails at times; every verdict is "
        "compared with a reference verifier; non-trivial if a verdict was "
        "compared after an edit or an update")
STATE = "hash of the violations found by the reference in each step"
KINDS = (["value"] * 5 + ["units"] * 3 + ["shape"] * 5 + ["dtype"] * 2 +
         ["drop"] * 4 + ["addvar"] * 4 + ["addattr"] * 3 + ["optional"] * 2 +
         ["room"] + ["rules"] * 5 + ["alias", "alias", "deprecate"] +
         ["table"] * 2 + ["break"] * 2 + ["undo"] * 9 + ["file"] * 3 + ["copy"])
RULE_KINDS = ["value", "value", "general", "general", "specific", "specific",
              "specific", "dimensions", "dimensions", "drop", "new"]
UNITS = ["metre", "metres", "meter", "degree", "degrees", "hertz", "kelvin",
         "radian", "cubic metre", "cubic meters", "second", "decibel", ""]
VARS = ["Temperature", "Humidity", "ReceiverView", "EmitterView", "SourceView",
        "SourceUp", "ReceiverUp", "ListenerView", "ListenerUp", "RoomCorner",
        "PRIVATEnote", "APIthing", "GLOBALx", "Title", "Comment", "Data",
        "RoomVolume", "RoomTemperature", "MeasurementDate", "MyUnits",
        "History", "DataType", "Dataset", "PRIVAT", "AP", "aAPI", "GLOBA"]
ATTRS = ["GLOBAL_Room", "GLOBAL_RoomDescription", "GLOBAL_RoomGeometry",
         "GLOBAL_ListenerPosition", "GLOBAL_SourceView", "API_Note",
         "PRIVATE_Note", "APIthing_Note", "GLOBAL_PRIVATE", "GLOBAL_API",
         "ListenerPosition_Note", "SourcePosition_Title", "GLOBAL_Musician",
         "ReceiverView_Type", "ReceiverView_Units", "SourceView_Type",
         "SourceView_Units", "ListenerView_Type", "ListenerView_Units",
         "EmitterView_Type", "EmitterView_Units", "RoomTemperature_Units",
         "RoomVolume_Units", "Temperature_Units", "Temperature_Note",
         "SourcePosition_units", "GLOBAL_N", "Data_Note"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, convs=sorted(gen.TABLES), small=True,
                                custom=rng.random() < 0.4),
            "origin": rng.choice(["new"] * 4 + ["copy", "pickle"]),
            "steps": []}
    for _ in range(rng.choice([1, 2, 4, 7] if tier == "quick"
                              else [3, 7, 14])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "judge": [[rng.choice(["return", "raise", "raise", "print",
                                     "ignore", "write"]),
                         rng.choice(["read", "write"])]
                        for _ in range(rng.choice([0, 1, 1, 2, 3]))],
              "fault": None}
        if st["do"] == "break":
            st["kind"] = rng.choice(sorted(breaks.ALL))
        if st["do"] == "rules":
            st["kind"] = rng.choice(RULE_KINDS)
        if rng.random() < 0.15:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "short",
                                                   "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": 0,
                "where": rng.choice(["/rules/", "/conventions/"])}
        plan["steps"].append(st)
    plan["steps"][-1]["judge"] = plan["steps"][-1]["judge"] or [
        ["raise", "write"]]
    if rng.random() < 0.2:
        # a file, and rules that change afterwards
        plan["new"] = gen.gen_spec(rng, small=True, convs=[
            c for c in gen.WRITABLE if c[-3] == "0"] if rng.random() < 0.5
            else None)
        plan["steps"].insert(0, {"do": "file", "seed": 1, "judge": [],
                                 "fault": None})
        for st in plan["steps"][1:]:
            if st["do"] not in ("rules", "alias", "table"):
                st["do"], st["kind"] = "rules", rng.choice(RULE_KINDS)
    for st in plan["steps"]:
        st["reread"] = rng.choice([None, None, "auto", "auto", True, False])
    return plan


class World:
    def __init__(self, env):
        self.env, self.custom, self.undo = env, {}, []
        self.file = None        # custom entries of the file
        self.tabs = copy.deepcopy(gen.TABLES)
        self.rules = convdb.rules()
        self.aliases = dict(convdb.UNIT_ALIASES)
        self.deps = convdb.deprecations()
        self.track()

    def track(self):
        add_v, add_a = sofar.Sofa.add_variable, sofar.Sofa.add_attribute

        def add_variable(s, name, value, dtype, dimensions):
            r = add_v(s, name, value, dtype, dimensions)
            self.custom[name] = (dtype, "".join(
                d.upper() if d.upper() in gen.STD else d.lower()
                for d in dimensions))
            return r

        def add_attribute(s, name, value):
            r = add_a(s, name, value)
            self.custom[name] = ("attribute", None)
            return r
        sofar.Sofa.add_variable = add_variable
        sofar.Sofa.add_attribute = add_attribute

    def install(self):
        put = {"rules/rules.json": self.rules,
               "rules/unit_aliases.json": self.aliases,
               "rules/deprecations.json": self.deps}
        for nv, (dep, rows) in self.tabs.items():
            put["conventions/" + ("deprecated/" if dep else "") + nv +
                ".json"] = convdb.json_dict(rows)
        with self.env.quiet():
            for rel, d in put.items():
                with open(os.path.join(self.env.db, rel), "w") as f:
                    json.dump(d, f)

    def table(self, s):
        nv = "_".join(str(vars(s).get("GLOBAL_SOFAConventions" + x))
                      for x in ("", "Version"))
        if nv not in self.tabs:
            return nv, None
        return nv, {refverify.norm(n): (t, d, bool(f and "m" in f), default)
                    for n, default, f, d, t, _ in self.tabs[nv][1]}

    def reference(self, s, mode, adds):
        nv, table = self.table(s)
        if table is None:
            return None
        entries = {k: v for k, v in vars(s).items() if not k.startswith("_")}
        for k in entries:
            if k not in table and k not in self.custom:
                raise Discard("unknown entry " + k)
        return refverify.verify(
            entries, table, self.custom, self.rules, self.aliases,
            self.deps["GLOBAL:SOFAConventions"], mode, adds)


# -- judging ----------------------------------------------------------------
def named(text, k):
    return re.search(r"(?<!\w)" + re.escape(k) + r"(?!\w)", text)


def judge(w, s, how, mode, what, fault=None):
    write = how == "write"
    if write:
        how, mode = "raise", "write"
    ref = w.reference(s, mode, how != "raise")
    before = gen.fingerprint(s)
    with mute() as (out, warned):
        try:
            v = sofar.write_sofa("judge", s) if write else s.verify(
                **ops.args(issue_handling=how, mode=mode))
            res = "ok"
        except (Exception, KeyboardInterrupt) as e:  # noqa: B902
            res, v = "raised", e
        out = out.getvalue()
    n = w.env.disarm()
    warned = [str(x.message) for x in warned]
    q = f"{what}: verify({how}, {mode})" + (" by write_sofa" * write)
    w.env.ev("judge", how, mode, res, n)
    if n and res == "raised":
        return None
    if ref is None:
        if res != "raised":
            raise Violation("unknown-convention", f"{q} accepted the "
                            f"convention {w.table(s)[0]}")
        return None
    w.env.probe("nontrivial")
    w.env.probe("verdict-" + ("invalid" if ref.errors else "valid"))
    for c in ref.classes():
        w.env.probe("class-" + c)
    want = f"expected {ref.errors[:6]} {ref.warnings}"
    if res == "raised" and not isinstance(v, ValueError):
        raise Violation("crash", f"{q} raised {type(v).__name__}: {v!s:.300}; "
                        f"{want}")
    text, wtext = "", ""
    if how == "raise":
        text = str(v) if res == "raised" else ""
        wtext = "\n".join(warned)
        if bool(ref.errors) != (res == "raised"):
            raise Violation("accepted" if ref.errors else "refused",
                            f"{q}: {res} {text:.400}; {want}")
    elif res == "raised":
        raise Violation("raised", f"{q} raised {v!r:.300}; {want}")
    elif how == "ignore":
        if v is not None or out or warned:
            raise Violation("not-ignored", f"{q}: {v} {out} {warned}")
    else:
        text = v if how == "return" else out
        text = text or ""
        if bool(ref.errors) != ("ERRORS" in text):
            raise Violation("accepted" if ref.errors else "refused",
                            f"{q}: {text!r:.400}; {want}")
        wtext = text.partition("WARNINGS")[2]
        if "WARNINGS" in text:
            wtext = "W" + wtext
        wtext = wtext.partition("ERRORS")[0]
        err = text.partition("ERRORS")[2]
        text = "ERRORS" + err.partition("WARNINGS")[0] if err else ""
    if how != "ignore":
        report(w, s, ref, text, wtext, q, want, n, write)
    after = gen.fingerprint(s)
    if how != "raise":
        for k in ref.missing:
            if k not in after:
                raise Violation("not-added", f"{q}: {k} is still missing")
            after.pop(k)
            before.pop(k, None)
    gen.unchanged("changed", before, after, q)
    return not ref.errors


def reread(w, verify, what, fault):
    """read_sofa verifies what it reads, if it has to."""
    res, t = call(sofar.read_sofa, "f", False, False)
    if res == "raised":
        # the conventions changed since then (this is part of C17)
        return
    custom, w.custom = w.custom, w.file
    try:
        ref = w.reference(t, "read", False)
    finally:
        w.custom = custom
    if ref is None:
        return
    ver = float(vars(t)["GLOBAL_SOFAConventionsVersion"])
    on = verify is True or verify == "auto" and ver >= 1

    def fn():
        return sofar.read_sofa("f", **ops.args(verify=verify))
    if fault:
        ops.place(w.env, fault, ops.dry(w.env, fn), fault["where"])
    res, v = call(fn)
    if w.env.disarm() and res == "raised":
        return
    w.env.probe("reread-" + ("invalid" if ref.errors else "valid") +
                "-verified" * on)
    if (res == "raised") != (on and bool(ref.errors)):
        raise Violation("reading", (
            f"{what}: read_sofa(verify={verify}) of a file of version {ver}: "
            f"{res} {v!r:.300}; expected {ref.errors[:6]}"))
    if res == "raised" and not isinstance(v, ValueError):
        raise Violation("crash", f"{what}: read_sofa(verify={verify}): {v!r}")


def report(w, s, ref, text, wtext, q, want, n, write):
    for cls, keys in ref.errors:
        if not any(named(text, k) for k in keys):
            raise Violation("not-named", f"{q} does not name {keys} ({cls}): "
                            f"{text:.500}")
    if not ref.early:
        # (warnings are reported at the end)
        # (write_sofa also verifies an object of the latest version)
        if bool(ref.warnings) != bool(wtext) and not n and not write:
            raise Violation("warnings", f"{q}: {wtext!r:.300}; {want}")
        if "missing" in ref.warnings:
            for k in ref.missing:
                if not named(wtext, k):
                    raise Violation("not-named", f"{q} does not tell that "
                                    f"{k} was added: {wtext:.300}")
    blamed = {k for _, ks in ref.errors for k in ks}
    letters = {d for c, ks in ref.errors if c == "shape" for k in ks
               for d in (w.dims_of(s, k) or "").upper()}
    for line in text.split("\n"):
        m = re.match(r"- (\w+)", line)
        if not m or m[1] not in vars(s) or m[1] in blamed:
            continue
        if letters & set((w.dims_of(s, m[1]) or "").upper()):
            continue
        if any(named(line, k) for k in blamed):
            continue
        raise Violation("innocent", f"{q} reports {line!r}; {want}")


def dims_of(self, s, k):
    t = self.table(s)[1]
    d = (t or {}).get(k) or self.custom.get(k)
    return d[1].replace(", ", "") if d and d[1] else None


World.dims_of = dims_of


# -- changes ----------------------------------------------------------------
def assign(w, s, new, drop=()):
    """Set and delete entries regardless of protection; undoable."""
    old = {k: vars(s)[k] for k in list(new) + list(drop) if k in vars(s)}
    defs = {k: w.custom.get(k) for k in drop}
    s.protected = False
    for k in drop:
        if k in vars(s):
            delattr(s, k)
    s.protected = False
    for k, v in new.items():
        if k in vars(s):
            setattr(s, k, v)
    s.protected = True

    def undo():
        table = w.table(s)[1] or {}
        for k, v in old.items():
            if k in vars(s) or k in table:
                breaks.unlocked(s, lambda: setattr(s, k, v))
            elif defs.get(k):
                # a custom entry was deleted
                typ, dims = defs[k]
                try:
                    if typ == "attribute":
                        s.add_attribute(k, v)
                    else:
                        s.add_variable(k, v, typ, dims)
                except ValueError:
                    pass
    w.undo.append(undo)


def case(rng, v):
    return rng.choice([v, v, v.upper(), v.capitalize(), v.title(), v + " ",
                       " " + v, v[:-1], v + "x"])


def step(w, b, st):
    rng = random.Random(st["seed"])
    s, do = b.sofa, st["do"]
    nv, table = w.table(s)
    entries = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    defs = dict(w.custom)
    defs.update({k: v[:2] for k, v in (table or {}).items()})
    attrs = [k for k in entries if defs.get(k, ("",))[0] == "attribute"
             and not k.startswith("GLOBAL_SOFAConv")]
    numeric = [k for k in entries if defs.get(k, ("",))[0] in
               ("double", "string")]
    ruled = {refverify.norm(k): r for k, r in w.rules.items()}
    if not numeric or not attrs:
        return
    if do == "value":
        ks = [k for k in attrs if k in ruled and ruled[k]["value"]] or attrs
        k = rng.choice(ks)
        pool = list(ruled.get(k, {}).get("value") or []) + \
            list(ruled.get(k, {}).get("specific", {})) * 2
        v = case(rng, rng.choice(pool or ["x"]))
        if rng.random() < 0.1:
            v = rng.choice(["nonsense", "", "FIR", "free field"])
        assign(w, s, {k: v})
    elif do == "units":
        ks = [k for k in attrs if k.endswith("_Units")]
        if ks:
            k = rng.choice(ks)
            us = [u for u in entries[k].lower().split(", ")] \
                if rng.random() < 0.6 and isinstance(entries[k], str) \
                else ["degree", "degree", "metre"]
            for _ in range(rng.choice([0, 1, 1, 2])):
                i = rng.randrange(len(us))
                same = [a for a in w.aliases
                        if w.aliases[a] == w.aliases.get(us[i])]
                us[i] = rng.choice(same * 2 + UNITS + list(w.aliases))
            if rng.random() < 0.3:
                us = rng.choice([us[:-1] or us, us + us[:1], us[::-1]])
            v = rng.choice([", ", ", ", ", ", ",", ",  ", ";"]).join(us)
            if rng.random() < 0.2:
                v = rng.choice([v.upper(), v.capitalize(), v + ",",
                                v + ", "])
            assign(w, s, {k: v})
    elif do == "shape":
        k = rng.choice(numeric)
        assign(w, s, {k: value(w, b, rng, *defs[k], rng.random() < 0.6)})
    elif do == "dtype":
        k = rng.choice(rng.choice([numeric, numeric, attrs, [
            k for k in numeric if defs[k][0] == "string"] or numeric]))
        v = np.asarray(entries[k])
        try:
            v = v.astype(rng.choice(["f4", "f2", "i2", "u1", "?", "c16", "O",
                                     "U", "S", "g", "i8"]))
        except (ValueError, TypeError, UnicodeError):
            v = rng.choice([1, 2.5, "text"])
        if v.dtype.kind == "S" if isinstance(v, np.ndarray) else False:
            v = v.astype("O")
        if rng.random() < 0.2:
            v = rng.choice([True, 1, 2.5, "text", 3 + 1j, np.uint8(3),
                            np.float32(2), np.array(5), np.array("a"), None])
        assign(w, s, {k: v})
    elif do == "drop":
        ks = [k for k in entries if not k.startswith("GLOBAL_SOFAConv")]
        mand = [k for k in ks if (table or {}).get(k, (0, 0, False))[2]]
        ks = mand if rng.random() < 0.35 else [k for k in ks if k not in mand]
        ruled_deps = {refverify.norm(d) for r in w.rules.values()
                      for d in r.get("general", ())}
        if rng.random() < 0.5:
            ks = [k for k in ks if k in ruled_deps or "_" not in k] or ks
        if ks:
            assign(w, s, {}, [rng.choice(ks)])
    elif do in ("addvar", "optional", "room"):
        add(w, b, s, rng, do, table, entries)
    elif do == "addattr":
        k = rng.choice(ATTRS)
        v = rng.choice(["cartesian", "metre", "x", "spherical",
                        "degree, degree, metre", "kelvin", "Cubic metre"])
        res, _ = call(s.add_attribute, k, v)
        if res == "ok":
            w.undo.append(lambda: k in vars(s) and assign_del(s, k))
    elif do == "rules":
        change_rules(w, s, rng, st["kind"], table, entries, defs)
        w.install()
    elif do == "alias":
        if rng.random() < 0.5:
            w.aliases[rng.choice(UNITS[:-1] + ["metro", "grad"])] = \
                rng.choice(["metre", "degree", "hertz"])
        else:
            w.aliases.pop(rng.choice(sorted(w.aliases)))
        w.install()
    elif do == "deprecate":
        d = w.deps["GLOBAL:SOFAConventions"]
        n = rng.choice([nv.split("_")[0], nv.split("_")[0], "GeneralFIR",
                        nv.split("_")[0][:-1]])
        if n in d:
            del d[n]
        else:
            d[n] = "GeneralTF"
        w.install()
    elif do == "table":
        if table:
            change_table(w, nv, rng)
            w.install()
    elif do == "break":
        u = breaks.apply(b, st["kind"], rng)
        if u:
            w.undo.append(u)
    elif do == "undo":
        for _ in range(rng.choice([1, 1, 9])):
            if w.undo:
                call(w.undo.pop())
    elif do == "copy":
        b.sofa = rng.choice([s.copy, lambda: pickle.loads(
            pickle.dumps(s))])()
        w.undo.clear()
    elif do == "file":
        ref = w.reference(s, "write", False)
        if ref is not None and not ref.errors:
            with mute():
                must("write-failed", sofar.write_sofa, "f", s)
                b.sofa = must("read-failed", sofar.read_sofa, "f", False,
                              False)
            w.undo.clear()
            w.file = dict(w.custom)
    s = b.sofa
    if "_protected" in vars(s):
        s.protected = True


def assign_del(s, k):
    s.protected = False
    delattr(s, k)
    s.protected = True


def add(w, b, s, rng, do, table, entries):
    if do == "optional" and table:
        # entries of the table that are not in the object
        gone = [k for k in table if k not in entries]
        if not gone:
            return
        k = rng.choice(gone)
        v = table[k][3]
        if table[k][0] != "attribute" and rng.random() < 0.5:
            v = value(w, b, rng, table[k][0], table[k][1], False)
        breaks.unlocked(s, lambda: setattr(s, k, v))
        w.undo.append(lambda: k in vars(s) and assign_del(s, k))
        return
    if do == "room":
        breaks.unlocked(s, lambda: setattr(
            s, "GLOBAL_RoomType", case(rng, rng.choice(
                ["shoebox", "dae", "reverberant"]))))
        for k in ["RoomCornerA", "RoomCornerB"]:
            if k not in vars(s) and rng.random() < 0.8:
                call(s.add_variable, k, [1, 2, 3], "double", "IC")
        if rng.random() < 0.8 and "RoomCorners" not in vars(s):
            call(s.add_variable, "RoomCorners", 0, "double", "II")
            call(s.add_attribute, "RoomCorners_Type", "cartesian")
            call(s.add_attribute, "RoomCorners_Units", "metre")
        return
    k = rng.choice(VARS)
    typ = rng.choice(["double"] * 3 + ["string"])
    dims = rng.choice(["I", "M", "IC", "MC", "MR", "RCI", "W", "MW", "WV",
                       "RN", "N", "MRN", "E", "WW", "MRNE"])
    if typ == "string":
        dims = rng.choice(["IS", "MS", "WS", "RS", "MRS"])
    v = value(w, b, rng, typ, dims, rng.random() < 0.3)
    res, _ = call(s.add_variable, k, v, typ, dims)
    if res == "ok":
        if rng.random() < 0.3:
            call(s.add_attribute, k + rng.choice(["_Units", "_Note", "_Type"]),
                 rng.choice(["metre", "Kelvin", "x", ""]))
        w.undo.append(lambda: k in vars(s) and assign_del(s, k))


def value(w, b, rng, typ, dims, odd):
    """A value for the dimensions; odd: maybe of another shape."""
    alt = rng.choice(dims.split(", "))
    size = {"I": 1, "C": 3, "S": 1, "W": 2, "V": 3}
    for d, k, ax in (("M", "Data_IR", 0), ("R", "ReceiverPosition", 0),
                     ("E", "EmitterPosition", 0), ("M", "Data_Real", 0),
                     ("M", "Data_SOS", 0)):
        if k in vars(b.sofa):
            a = np.atleast_3d(np.asarray(vars(b.sofa)[k]))
            size[d] = a.shape[ax] if a.shape[ax] < 50 else 1
    sh = [size.get(d.upper(), b.spec.get(d.upper(), 1)) or 1 for d in alt]
    if odd:
        for _ in range(rng.choice([1, 1, 2])):
            what = rng.choice(["size", "size", "one", "drop", "extra",
                               "extra-one", "swap"])
            i = rng.randrange(len(sh)) if sh else 0
            if what == "size" and sh:
                sh[i] = rng.choice([1, 2, 3, 4, 6, 9, 12])
            elif what == "one" and sh:
                sh[i] = 1
            elif what == "drop" and sh:
                sh.pop()
            elif what == "extra":
                sh.append(rng.choice([2, 3]))
            elif what == "extra-one":
                sh += [1] * rng.choice([1, 2, 3])
            elif what == "swap":
                sh.reverse()
    while sh and sh[-1] == 1 and rng.random() < 0.3:
        sh.pop()
    if typ == "string":
        if not sh:
            return "text"
        v = np.array(["ab"] * int(np.prod(sh)), dtype="U").reshape(sh)
        return rng.choice([v, v, v.tolist()])
    if not sh:
        return rng.choice([1, 1.5, np.array(2.), np.float64(1)])
    v = np.ones(sh) * rng.choice([1, 0.5])
    return rng.choice([v, v, v, v.tolist(), v.astype("f4"),
                       v.astype("i8")])


# -- updates of rules and conventions ----------------------------------------
def unit_list(rng):
    return [", ".join(rng.choice(["metre", "degree", "hertz"])
                      for _ in range(rng.choice([1, 1, 2, 3])))]


def restriction(w, s, key, rng, defs):
    """Allowed values for an entry."""
    k = refverify.norm(key)
    if defs.get(k, ("",))[0] != "attribute":
        return None
    if k.endswith("Units"):
        return rng.choice([None, unit_list(rng)])
    cur = vars(s).get(k)
    vals = [v for v in ["one", "two", "cartesian", "spherical", "FIR",
                        "free field", "shoebox"] if rng.random() < 0.3]
    if isinstance(cur, str) and rng.random() < 0.6:
        vals.insert(rng.randrange(len(vals) + 1),
                    rng.choice([cur, cur.lower()]))
    return rng.choice([None, vals or ["one"], vals or ["one"]])


def change_rules(w, s, rng, kind, table, entries, defs):
    if not table:
        return
    names = [r[0] for r in w.tabs[w.table(s)[0]][1]]
    known = [n for n in w.rules if refverify.norm(n) in entries] or \
        sorted(w.rules)
    key = rng.choice(known)
    rule = w.rules[key]
    k = refverify.norm(key)
    attr = defs.get(k, ("",))[0] == "attribute"
    far = rng.choice(names + ["GLOBAL:NotThere", "ReceiverView", "RoomVolume"])
    if kind == "drop":
        if not key.startswith("GLOBAL:SOFAConv"):
            del w.rules[key]
    elif kind == "new":
        key = rng.choice([n for n in names if n not in w.rules])
        w.rules[key] = {"value": restriction(w, s, key, rng, defs)}
        if rng.random() < 0.4:
            w.rules[key]["general"] = [far]
    elif kind == "value" and attr:
        if k.endswith("Units"):
            rule["value"] = unit_list(rng)
        elif rule["value"]:
            if rng.random() < 0.5 and len(rule["value"]) > 1:
                v = vars(s).get(k)
                if v in rule["value"] and rng.random() < 0.5:
                    rule["value"].remove(v)
                else:
                    rule["value"].pop(rng.randrange(len(rule["value"])))
            else:
                rule["value"].append(rng.choice(
                    ["other", "polar", "1.5",
                     str(vars(s).get(k)).lower()]))
    elif kind == "general":
        g = rule.setdefault("general", [])
        if g and rng.random() < 0.4:
            g.pop(rng.randrange(len(g)))
        else:
            g.insert(rng.randrange(len(g) + 1), far)
    elif kind in ("specific", "dimensions") and attr:
        spec = rule.setdefault("specific", {})
        cur = vars(s).get(k)
        vals = list(spec) + list(rule["value"] or [])
        if isinstance(cur, str):
            vals += [cur.lower() if cur.lower() in vals else cur] * 4
        if not vals:
            return
        at = spec.setdefault(rng.choice(vals), {})
        if kind == "dimensions":
            d = rng.choice("MREN")
            n = sorted({rng.choice([1, 2, 3, 4, 6, 9]) for _ in range(3)})
            at.setdefault("_dimensions", {})[d] = {
                "value": n, "value_str": " or ".join(map(str, n))}
        elif rng.random() < 0.25 and at:
            at.pop(rng.choice(sorted(at)))
        else:
            dep = rng.choice([n for n in names if refverify.norm(n) in
                              entries] * 1 + [far] * 5)
            at[dep] = restriction(w, s, dep, rng, defs)


def change_table(w, nv, rng):
    dep, rows = w.tabs[nv]
    rows = list(rows)
    i = rng.randrange(len(rows))
    n, d, f, dims, t, c = rows[i]
    what = rng.choice(["mandatory", "optional", "row", "custom", "dims"])
    if what == "mandatory":
        rows[i] = (n, d, f if f and "m" in f else (f or "") + "m", dims, t, c)
    elif what == "optional" and not n.startswith("GLOBAL:SOFAConv") and \
            dims not in ("mRn", "mRnE", "mREn", "rCI, rCM", "eCI, eCM"):
        rows[i] = (n, d, None, dims, t, c)
    elif what == "row":
        if "GLOBAL:Added" not in [r[0] for r in rows]:
            rows.append(("GLOBAL:Added", "x", rng.choice(["m", None]), None,
                         "attribute", ""))
    elif what == "custom":
        name = rng.choice(["Temperature", "Humidity", "Dataset"])
        if name not in [r[0] for r in rows]:
            rows.append((name, 0, rng.choice(["m", None]),
                         rng.choice(["I", "M", "I, M", "MI"]), "double", ""))
    elif what == "dims":
        js = [j for j, r in enumerate(rows) if r[3] and r[4] == "double" and
              r[3].isupper() and "," not in r[3]] + \
            [j for j, r in enumerate(rows) if r[0] in (
                "SourcePosition", "ListenerPosition", "Data.Delay")]
        j = rng.choice(js)
        n, d, f, dims, t, c = rows[j]
        new = {2: ["IC", "MC", "IC, MC", "MC, IC"], 1: ["I", "M", "I, M"]}
        if n == "Data.Delay" and len(dims.split(", ")[0]) == 2:
            new[2] = ["IR", "MR", "IR, MR"]
        dims = rng.choice(new.get(len(dims.split(", ")[0]), [dims]))
        rows[j] = (n, d, f, dims, t, c)
    w.tabs[nv] = (dep, rows)


def run(env, plan):
    w = World(env)
    env.fresh_db(convdb.files())
    spec = dict(plan["new"], verify=False)
    plan = dict(plan, new=spec, breaks=[])
    b = c10.make(env, plan)
    classes = []
    for n, st in enumerate(plan["steps"]):
        what = f"step {n} ({st['do']} {st.get('kind', '')})"
        step(w, b, st)
        for how, mode in st["judge"]:
            if st["fault"]:
                def fn():
                    b.sofa.verify("raise", mode)
                ops.place(env, st["fault"], ops.dry(env, fn),
                          st["fault"]["where"])
                judge(w, b.sofa, how, mode, what + " with fault")
            ok = judge(w, b.sofa, how, mode, what)
            ref = w.reference(b.sofa, mode, how != "raise")
            classes.append((ok, ref and ref.classes()))
        if st["reread"] is not None and w.file is not None:
            reread(w, st["reread"], what, st["fault"])
    env.state = str(classes)
