"""C23: dimensions and definitions that are reported are the current ones."""
import os
import random
import re

import numpy as np

from .. import breaks, convdb, gen, ops, refverify
from ..kernel import Discard, Violation, call, mute
from . import c10, c21
import sofar

RUNS = {"quick": 2500, "thorough": 50000}
RULE = ("a run takes an object through a seeded history (values of other "
        "shapes and types, strings, custom entries, deletions, copies, files) "
        "while conventions are updated and reading them fails at times; after "
        "each step get_dimension, list_dimensions, info, list_conventions and "
        "version are compared with a model of the data and the database; "
        "non-trivial if dimensions were compared after a change")
STATE = "hash of the sizes of all dimensions after each step"
KINDS = (["shape"] * 6 + ["dtype"] * 2 + ["drop"] * 4 + ["addvar"] * 6 +
         ["addattr", "optional", "optional", "room", "value", "value",
          "string", "string", "string", "resize", "resize", "resize",
          "break", "table", "undo", "undo", "undo", "undo", "file", "file",
          "copy", "deprecate", "conventions", "conventions", "version"])
ASK = ["get", "get", "get", "list", "list", "info", "info", "key",
       "conventions", "version", "bad"]
FLAG = {"all": lambda m, r, t: True, "mandatory": lambda m, r, t: m,
        "optional": lambda m, r, t: not m, "read only": lambda m, r, t: r,
        "data": lambda m, r, t: t != "attribute"}


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, convs=sorted(gen.TABLES), small=True,
                                custom=rng.random() < 0.4),
            "origin": rng.choice(["new"] * 4 + ["copy", "pickle"]),
            "steps": []}
    for _ in range(rng.choice([1, 2, 4, 8] if tier == "quick"
                              else [3, 8, 16])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "ask": [rng.choice(ASK)
                      for _ in range(rng.choice([0, 1, 2, 3, 5]))],
              "fault": None}
        if st["do"] == "break":
            st["kind"] = rng.choice(sorted(breaks.ALL))
        if rng.random() < 0.15:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "short",
                                                   "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": 0,
                "where": rng.choice(["/rules/", "/conventions/"])}
        plan["steps"].append(st)
    plan["steps"][-1]["ask"] = plan["steps"][-1]["ask"] or ["get", "list"]
    return plan


class World(c21.World):
    def __init__(self, env):
        super().__init__(env)
        self.version = "2.1"

    def full_table(self, s):
        nv = "_".join(str(vars(s).get("GLOBAL_SOFAConventions" + x))
                      for x in ("", "Version"))
        if nv not in self.tabs:
            return None
        return {refverify.norm(n): (t, d, f or "", default, c)
                for n, default, f, d, t, c in self.tabs[nv][1]}


# -- steps ------------------------------------------------------------------
def step(w, b, st):
    rng = random.Random(st["seed"])
    s, do = b.sofa, st["do"]
    table = w.table(s)[1] or {}
    entries = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    defs = {k: v[:2] for k, v in table.items()}
    defs.update({k: v for k, v in w.custom.items() if k not in defs})
    if do == "string":
        ks = [k for k in entries if defs.get(k, ("",))[0] == "string"]
        if not ks:
            if "Remark" not in entries:
                call(s.add_variable, "Remark", "none", "string", "IS")
            return
        k = rng.choice(ks)
        v = np.asarray(entries[k])
        if v.dtype.kind != "U":
            return
        new = np.array([rng.choice(gen.WORDS + ["x" * 40, ""])
                        for _ in range(v.size)], dtype="U").reshape(v.shape)
        c21.assign(w, s, {k: str(new) if not new.ndim else new})
    elif do == "resize":
        # a dimension gets another size in all entries
        d = rng.choice("MRNEW")
        n = rng.choice([1, 2, 3, 5])
        new = {}
        for k, v in entries.items():
            typ, dims = defs.get(k, ("", None))
            if typ != "double" or not dims or \
                    not isinstance(v, (np.ndarray, float, int, np.number)):
                continue
            first = dims.split(", ")[0]
            if d not in first.upper():
                continue
            sh = refverify.shape(v, typ, len(first))
            if sh is None:
                continue
            new[k] = np.ones([n if x.upper() == d else m
                              for x, m in zip(first, sh)])
            if rng.random() < 0.1:
                break
        c21.assign(w, s, new)
    elif do == "conventions":
        nv = rng.choice(sorted(w.tabs))
        with w.env.quiet():
            if rng.random() < 0.5 and nv != w.table(s)[0]:
                dep = w.tabs.pop(nv)[0]
                os.remove(os.path.join(w.env.db, "conventions",
                                       "deprecated" * dep, nv + ".json"))
            else:
                n = nv.split("_")[0] + rng.choice(["", "X"]) + rng.choice(
                    ["_0.1", "_1.5", "_3.0"])
                w.tabs.setdefault(n, w.tabs[nv])
                w.install()
    elif do == "version":
        w.version = rng.choice(["2.1", "2.2", "3.0", "1.0"])
        with w.env.quiet(), open(os.path.join(w.env.db, "VERSION"),
                                 "w") as f:
            f.write(w.version + rng.choice(["", "\n", "\n\n"]))
    else:
        c21.step(w, b, st)


# -- questions ----------------------------------------------------------------
def expected_sizes(w, s):
    """{dimension: size} or None if the data has wrong types or shapes."""
    ref = w.reference(s, "write", True)
    if ref is None or "type" in ref.classes() or "shape" in ref.classes():
        return None
    table = w.table(s)[1]
    entries = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    for k in ref.missing:
        entries[k] = np.asarray(table[k][3]) if isinstance(
            table[k][3], list) else table[k][3]
    defs = dict(w.custom)
    defs.update({k: v[:2] for k, v in table.items()})
    out = {d: next(iter(v))
           for d, v in refverify.sizes(entries, defs).items()}
    out["S"] = 0
    for k, v in entries.items():
        dims = defs[k][1]
        if dims and "S" in dims.split(", ")[0]:
            for x in np.asarray(v).astype("U").reshape(-1):
                out["S"] = max(out["S"], len(str(x).encode("utf-8")))
    return out


def printed(fn):
    def run():
        with mute() as (out, _):
            fn()
            return out.getvalue()
    return run


def ask(w, s, q, rng, what, fault=None):
    """Ask a question and judge the answer."""
    known = w.table(s)[1] is not None
    if q in ("get", "bad", "list"):
        size = expected_sizes(w, s)
        d = rng.choice(sorted(size) if size and q == "get"
                       else list("MRNECIS"))
        if q == "bad":
            d = rng.choice(["X", "Z", "m", "r", "", "MR", "SS", "q", "w"])
        fn = printed(lambda: s.list_dimensions) if q == "list" else \
            lambda: s.get_dimension(d)
    elif q in ("info", "key"):
        entries = [k for k in vars(s) if not k.startswith("_")]
        arg = rng.choice(list(FLAG)) if q == "info" else rng.choice(
            entries * 2 + ["nonsense", "", "Data", "GLOBAL", "_custom",
                           "Position", "ALL"])
        fn = printed(lambda: s.info(**ops.args(info=arg)))
        if known and not settle(w, s):
            return None
        # (missing mandatory entries were added)
        entries = [k for k in vars(s) if not k.startswith("_")]
    elif q == "conventions":
        fn = printed(sofar.list_conventions)
    else:
        fn = sofar.version
    if fault:
        ops.place(w.env, fault, ops.dry(w.env, fn), fault["where"])
    res, v = call(fn)
    n = w.env.disarm()
    w.env.ev(q, res, n)
    if res == "raised" and n:
        return None
    what = f"{what}: {q}"
    if q in ("get", "bad", "list"):
        return judge_size(w, s, q, res, v, size, d, what)
    if q == "conventions":
        names = sorted(re.findall(r"^(\S+) \(Version (\S+)\)$", str(v), re.M))
        want = sorted(tuple(k.split("_")) for k in w.tabs)
        if res == "raised" or names != want:
            raise Violation("conventions", f"{what}: {v!r:.500} not {want}")
    elif q == "version":
        if res == "raised" or not str(v).endswith(" " + w.version):
            raise Violation("version", f"{what}: {v!r}, not {w.version}")
    elif known:
        judge_info(w, s, q, arg, res, v, entries, what)
    return None


def settle(w, s):
    """Verify, which tells the object about updates of its convention."""
    return call(s.verify, "ignore", "read")[0] == "ok"


def words(s, d):
    """What the description of a dimension has to tell."""
    if d == "N":
        kind = str(s.GLOBAL_DataType)
        return [y for x, y in (("FIR", "samples"), ("TF", "frequencies"),
                               ("SOS", "SOS coefficients"))
                if kind.startswith(x)][:1]
    if d in "RE":
        who = {"R": "receiver", "E": "emitter"}[d]
        kind = str(vars(s).get(who.capitalize() + "Position_Type"))
        return [who] + ["harmonics"] * ("harmonic" in kind)
    return {"M": ["measurements"], "S": ["string"]}.get(
        d, ["custom"] if d not in "CI" else [])


def judge_size(w, s, q, res, v, size, d, what):
    if size is None or q == "bad" and d not in size:
        if res != "raised":
            raise Violation("reported", f"{what} {d!r} is {v!r:.300} of data "
                            "without such dimensions")
        if not isinstance(v, ValueError):
            raise Violation("crash", f"{what} {d!r}: {type(v).__name__}: {v}")
        w.env.probe("refused")
        return None
    if res == "raised":
        raise Violation("refused", f"{what} {d!r} raised "
                        f"{type(v).__name__}: {v!s:.300}; expected {size}")
    w.env.probe("nontrivial")
    if q != "list":
        if v != size[d] or isinstance(v, bool) or \
                not isinstance(v, (int, np.integer)):
            raise Violation("dimension", f"{what}: {d} is {v!r}, not "
                            f"{size[d]}")
        return size
    have = {}
    for line in v.strip().split("\n"):
        m = re.match(r"(\w) = (\d+) ", line)
        if not m or m[1] in have:
            raise Violation("list", f"{what}: {line!r}")
        have[m[1]] = int(m[2])
        if not all(x in line for x in words(s, m[1])):
            raise Violation("list", f"{what}: {line!r}, not "
                            f"{words(s, m[1])}")
        by = re.search(r"set by (\w+)", line)
        by = by and by[1]
        if by and m[1].lower() not in (w.dims_of(s, by) or ""):
            raise Violation("list", f"{what}: {line!r}")
        if m[1] not in "ICS" and not by:
            raise Violation("list", f"{what}: {line!r} does not tell what "
                            "sets the dimension")
    if have != size:
        raise Violation("list", f"{what}: {have}, not {size}")
    w.env.probe("listed")
    return size


def judge_entry(k, text, definition, what):
    typ, dims, flags, default, comment = definition
    m = re.search(r"^%s\n((?: .*\n)*)" % re.escape(k), text, re.M)
    have = dict(re.findall(r"^ +([a-z ]+): (.*)$", m[1], re.M)) if m \
        else {}
    want = {"type": typ, "mandatory": str("m" in flags),
            "read only": str("r" in flags),
            "shape": str(dims).upper()}
    if {k: have.get(k) for k in want} != want or \
            (comment and comment.split("\n")[0] not in m[1]) or \
            (not isinstance(default, list) and
             have.get("default") != str(default).split("\n")[0]):
        raise Violation("info", f"{what} {k} shows {have}, not {want}, "
                        f"{default!r}, {comment!r}")


def judge_info(w, s, q, arg, res, text, entries, what):
    table = w.full_table(s)
    defs = {}
    for k in entries:
        if k in table:
            defs[k] = table[k]
        elif k in w.custom:
            defs[k] = w.custom[k] + ("", None, "")
        else:
            raise Discard("unknown entry")
    what += f"({arg!r})"
    if q == "key":
        if arg not in entries:
            if res != "raised" or not isinstance(text, ValueError):
                if arg not in FLAG:
                    raise Violation("info", f"{what}: {text!r:.200}")
            return
        if res == "raised":
            raise Violation("crash", f"{what}: {text!r}")
        for k in [arg] + [k for k in entries if k.startswith(arg + "_")]:
            judge_entry(k, text, defs[k], what)
        w.env.probe("info-key")
        return
    if res == "raised":
        raise Violation("crash", f"{what}: {text!r}")
    have = []
    lines = text.split("\n")
    for i, line in enumerate(lines):
        m = re.match(r"(\w+) : (\w+)(?: \((.*)\))?, (mandatory|optional)"
                     r"(, read only)?$", line)
        if m:
            c = lines[i + 1].strip() if lines[i + 1].startswith("    ") else ""
            have.append((m[1], m[2], m[3], m[4] == "mandatory", bool(m[5]), c))
    want = []
    for k, (typ, dims, flags, _, comment) in defs.items():
        if FLAG[arg]("m" in flags, "r" in flags, typ):
            want.append((k, typ, dims.upper() if dims else None, "m" in flags,
                         "r" in flags, str(comment or "").split("\n")[0]
                         .strip()))
    if have != want:
        diff = [x for x in have if x not in want][:3], \
            [x for x in want if x not in have][:3]
        raise Violation("info", f"{what} shows {diff[0]} instead of {diff[1]}")
    w.env.probe("info")


def run(env, plan):
    w = World(env)
    env.fresh_db(convdb.files())
    spec = dict(plan["new"], verify=False)
    b = c10.make(env, dict(plan, new=spec, breaks=[]))
    states = []
    for n, st in enumerate(plan["steps"]):
        what = f"step {n} ({st['do']} {st.get('kind', '')})"
        step(w, b, st)
        rng = random.Random(st["seed"] + 1)
        for q in st["ask"]:
            if st["fault"]:
                ask(w, b.sofa, q, rng, what + " with fault", st["fault"])
            states.append(ask(w, b.sofa, q, rng, what))
    env.state = str(states)
