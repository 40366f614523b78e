"""C19: comparing and inspecting show what objects hold."""
import copy
import os
import pickle
import random
import re

import numpy as np

from .. import breaks, gen, ops
from ..kernel import Discard, Violation, call, must, mute
from . import c17
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run derives a pool of objects from one another (edits, copies, "
        "files written and read by all readers, twins built again, single "
        "changed values, damaged objects), with system calls failing or "
        "transferring less than asked, and compares random pairs and "
        "inspects objects and files after every step; the reference "
        "compares the entries themselves; non-trivial if different objects "
        "were compared")
STATE = "hash of all answers and listings"
DERIVE = (["edit"] * 3 + ["copy", "deepcopy", "pickle", "same"] +
          ["read", "read", "read-raw", "netcdf", "twin", "other"] +
          ["change"] * 14 + ["break"] * 3)
EXCLUDE = [None] * 6 + ["GLOBAL", "DATE", "ATTR", "global", "Date"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "new": gen.gen_spec(rng, small=True),
            "other": gen.gen_spec(rng, small=True), "steps": [],
            "foreign": None}
    if rng.random() < 0.3:
        plan["foreign"] = {"seed": rng.randrange(1 << 30),
                           "format": rng.choice(c17.FORMATS),
                           "kind": rng.choice(["foreign", "sofa"]),
                           "vars": rng.randrange(0, 7),
                           "attrs": rng.randrange(0, 6),
                           "conv": ["GeneralTF", "1.0"]}
    for _ in range(rng.choice([1, 2, 4, 6] if tier == "quick"
                              else [2, 4, 8, 14])):
        st = {"do": rng.choice(DERIVE), "of": rng.randrange(1000),
              "seed": rng.randrange(1 << 30), "fault": None,
              "kind": rng.choice(sorted(breaks.ALL)),
              "compare": [[rng.randrange(1000), rng.randrange(1000),
                           rng.choice(EXCLUDE), int(rng.random() < 0.5)]
                          for _ in range(rng.choice([0, 1, 2]))],
              "inspect": None}
        if rng.random() < 0.35:
            st["inspect"] = {
                "what": rng.choice(["object", "object", "file", "foreign"]),
                "of": rng.randrange(1000), "text": rng.randrange(3),
                "how": rng.choice(["print", "return", "ignore", "raise"]),
                "again": int(rng.random() < 0.5), "fault": None}
            if rng.random() < 0.3:
                st["inspect"]["fault"] = {
                    "op": rng.choice(["read", "openr", "write", "openw",
                                      "write"]),
                    "act": "error", "at": rng.randrange(1000), "arg": 0,
                    "err": rng.choice(["EIO", "ENOSPC", "EACCES"]),
                    "sticky": 0,
                    "where": rng.choice(["/rules/", "/conventions/",
                                         "/disk", "/disk", "/disk"])}
        if st["do"] in ("read", "read-raw", "netcdf") and \
                rng.random() < 0.4:
            st["fault"] = ops.gen_write_fault(rng, True)
        plan["steps"].append(st)
    return plan


# -- the reference ------------------------------------------------------------
def held(s):
    return {k: v for k, v in vars(s).items() if not k.startswith("_")}


def kind_of(m, k):
    return m["types"].get(k, (None, None))[0]


def numeric(v):
    try:
        return np.asarray(v).dtype.kind in "fiub"
    except Exception:  # noqa: B902
        return False


def squeeze(shape):
    return tuple(n for n in shape if n != 1)


def compare_numbers(a, b):
    """True, False or None (not determined by the property)."""
    if not numeric(a) or not numeric(b):
        if gen.value_print(a) == gen.value_print(b):
            # (undefined numbers in data of a wrong type are never equal)
            return None if "nan" in repr(np.asarray(a).tolist()) else True
        if numeric(a) != numeric(b):
            v = np.asarray(b if numeric(a) else a)
            return False if v.dtype.kind == "U" else None
        return None
    if squeeze(np.shape(a)) != squeeze(np.shape(b)):
        return False
    ma = np.ma.getmaskarray(np.ma.asarray(a)).reshape(-1)
    mb = np.ma.getmaskarray(np.ma.asarray(b)).reshape(-1)
    if not np.array_equal(ma, mb):
        return False
    x = np.ma.getdata(a)
    y = np.ma.getdata(b)
    same_shape = gen.canon_num(np.asarray(x), None)[1] == \
        gen.canon_num(np.asarray(y), None)[1]
    x = np.asarray(x, "f8").reshape(-1)[~ma]
    y = np.asarray(y, "f8").reshape(-1)[~mb]
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return False
    ok = ~np.isnan(x)
    x, y = x[ok], y[ok]
    if not np.array_equal(np.isinf(x), np.isinf(y)) or \
            np.any(x[np.isinf(x)] != y[np.isinf(x)]):
        return False
    ok = np.isfinite(x)
    x, y = x[ok], y[ok]
    big = np.maximum(np.abs(x), np.abs(y))
    with np.errstate(all="ignore"):
        rel = np.where(big > 0, np.abs(x / 2 - y / 2) / np.where(
            big > 0, big, 1) * 2, 0.0)
    if np.any(rel > 1e-5) or np.any((x == 0) != (y == 0)):
        return False
    if np.any((x != y) & (big < 1e-300)):
        return None
    if np.any(rel > 1e-9) or not same_shape:
        return None
    return True


def strings(v):
    a = np.asarray(v)
    if a.dtype.kind not in "U":
        return None
    return squeeze(a.shape), [str(x) for x in a.reshape(-1)]


def compare_entry(kind, a, b):
    if kind == "attribute":
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if gen.value_print(a) == gen.value_print(b):
            return True
        if isinstance(a, str) != isinstance(b, str):
            return False
        return None
    if kind == "string":
        x, y = strings(a), strings(b)
        if x is None or y is None:
            return None
        if x != y:
            return False
        return True if gen.canon_str(a)[1] == gen.canon_str(b)[1] else None
    return compare_numbers(a, b)


def excluded(m, k, how):
    how = (how or "").upper()
    return how == "GLOBAL" and k.startswith("GLOBAL_") or \
        how == "DATE" and "Date" in k or \
        how == "ATTR" and kind_of(m, k) == "attribute"


def reference(m, n, how):
    """(same?, entries that differ)"""
    a = {k: v for k, v in held(m["sofa"]).items() if not excluded(m, k, how)}
    b = {k: v for k, v in held(n["sofa"]).items() if not excluded(n, k, how)}
    if set(a) != set(b):
        return False, []
    bad, unknown = [], False
    for k in a:
        if kind_of(m, k) is None or kind_of(n, k) is None:
            raise Discard("unknown entry " + k)
        if kind_of(m, k) != kind_of(n, k):
            bad.append(k)
            continue
        r = compare_entry(kind_of(m, k), a[k], b[k])
        if r is False:
            bad.append(k)
        elif r is None:
            unknown = True
    if bad:
        return False, bad
    return (None if unknown else True), []


def ask(m, n, how, verbose):
    with mute() as (out, warned):
        try:
            kw = {} if verbose else {"verbose": False}
            if how is not None:
                kw["exclude"] = how
            r = sofar.equals(m["sofa"], n["sofa"], **kw)
        except Exception as e:  # noqa: B902
            raise Violation("equals-raised", (
                f"exclude={how}: {type(e).__name__}: {e}")) from None
    return r, [str(w.message) for w in warned
               if issubclass(w.category, UserWarning)]


def judge(env, m, n, how, verbose, what):
    want, bad = reference(m, n, how)
    before = [gen.fingerprint(x["sofa"]) for x in (m, n)]
    for x, y, d in ((m, n, ""), (n, m, " (swapped)")):
        got, warned = ask(x, y, how, verbose)
        q = f"{what}{d} exclude={how}"
        if got is not True and got is not False:
            raise Violation("equals", f"{q}: answer {got!r}")
        if want is not None and got != want:
            raise Violation("equals", f"{q}: {got} but the objects are " + (
                f"different in {bad or 'the entries they have'}"
                if want is False else "the same"))
        if got and warned or not verbose and warned:
            raise Violation("equals-warned", f"{q}: {got} {warned}")
        if not got and verbose:
            if not warned:
                raise Violation("equals-warned", f"{q}: no difference named")
            for k in bad:
                if not any(re.search(r"\b" + re.escape(k) + r"\b", w)
                           for w in warned):
                    raise Violation("equals-warned", (
                        f"{q}: {k} differs but is not named: {warned}"))
        env.ev("equals", got, len(warned))
        env.answers.append(got)
        if got is False:
            env.probe("nontrivial")
        env.probe("compared-same" if got else "compared-different")
    for x, f in zip((m, n), before):
        gen.unchanged("object-changed", f, gen.fingerprint(x["sofa"]), what)


# -- deriving objects -----------------------------------------------------------
def copied(m, s):
    return {"sofa": s, "types": dict(m["types"]), "b": None,
            "spec": m["spec"], "valid": m["valid"]}


def derive(env, plan, st, pool):
    rng = random.Random(st["seed"])
    do = st["do"]
    m = pool[st["of"] % len(pool)]
    s = m["sofa"]
    if st["seed"] % 3 == 0:
        # verified before: what was found must not be taken for granted
        call(s.verify, "return")
    if do == "same":
        return
    if do == "copy":
        pool.append(copied(m, must("copy", s.copy)))
    elif do == "deepcopy":
        pool.append(copied(m, must("copy", copy.deepcopy, s)))
    elif do == "pickle":
        pool.append(copied(m, must("pickle", lambda: pickle.loads(
            pickle.dumps(s)))))
    elif do == "twin":
        pool.append(start(plan["new"]))
    elif do == "other":
        pool.append(start(plan["other"]))
    elif do == "edit":
        c = copied(m, s.copy())
        b = gen.Built()
        b.sofa, b.model, b.types = c["sofa"], {}, c["types"]
        b.spec = copy.deepcopy(m["spec"])
        for k in held(s):
            b.model[k] = None
        with mute():
            ops.apply_edit(b, ops.gen_edit(rng))
        pool.append(c)
    elif do in ("read", "read-raw", "netcdf"):
        if not m["valid"]:
            return
        stem = f"f{len(pool)}"
        fn = lambda: sofar.write_sofa(stem, s)  # noqa: E731
        if st["fault"]:
            ops.place(env, st["fault"], ops.dry(env, fn))
        must("write-failed", fn)
        env.disarm()
        m["file"] = stem + ".sofa"
        read = {"read": lambda: sofar.read_sofa(stem, "auto", False),
                "read-raw": lambda: sofar.read_sofa(stem, False, False),
                "netcdf": lambda: sofar.read_sofa_as_netcdf(stem)}[do]
        c = copied(m, must("read-failed", read))
        c["file"] = m["file"]
        pool.append(c)
        # what was read is the same as what was written
        judge(env, m, c, None, rng.random() < 0.5, "written and read")
    elif do == "break":
        c = copied(m, s.copy())
        b = gen.Built()
        b.sofa, b.types, b.spec = c["sofa"], c["types"], m["spec"]
        with mute():
            done = call(breaks.apply, b, st["kind"], rng)
        if done[0] == "raised":
            return
        for k in held(c["sofa"]):
            if k not in c["types"]:
                c["types"][k] = ("attribute", None) if "_" in k else \
                    ("double", None)
        c["valid"] = False
        pool.append(c)
    elif do == "change":
        c = copied(m, s.copy())
        how = change(c, rng)
        if how:
            c["valid"] = False
            pool.append(c)
            env.ev("change", how)
            judge(env, m, c, rng.choice(EXCLUDE), rng.random() < 0.5,
                  "changed: " + how)


def assign(s, k, v):
    s.protected = False
    try:
        setattr(s, k, v)
    finally:
        s.protected = True


def change(c, rng):
    """Change one thing; returns what was done."""
    s, types = c["sofa"], c["types"]
    vals = held(s)
    kind = rng.choice(["number", "number", "number", "nan", "mask", "shape",
                       "rows", "string", "string", "attribute",
                       "attribute", "add", "delete", "type", "zero",
                       "strings-shape", "order", "order"])
    nums = [k for k in vals if kind_of(c, k) == "double" and
            numeric(vals[k]) and np.size(vals[k])]
    if kind in ("number", "nan", "mask", "zero"):
        if not nums:
            return None
        k = rng.choice(nums)
        v = copy.deepcopy(vals[k])
        a = np.ma.array(v, "f8") if isinstance(v, np.ma.MaskedArray) else \
            np.array(v, "f8")
        j = rng.randrange(a.size)
        idx = np.unravel_index(j, a.shape)
        x = float(np.asarray(np.ma.getdata(a)).reshape(-1)[j])
        if kind == "number":
            a[idx] = x * 1.001 + rng.choice([0, 1e-6, 1.0]) \
                if x and np.isfinite(x) else 1.0
        elif kind == "zero":
            a[idx] = 0.0 if x else rng.choice([1e-9, 1e-30, -1.0])
        elif kind == "nan":
            a[idx] = 2.5 if np.isnan(x) else np.nan
        else:
            mask = np.ma.getmaskarray(np.ma.asarray(a)).copy()
            mask[idx] = not mask[idx]
            a = np.ma.array(np.ma.getdata(a), mask=mask)
        assign(s, k, a)
        return f"{kind} of {k} at {j}"
    if kind in ("shape", "rows"):
        many = [k for k in nums if np.ndim(vals[k]) and
                (kind == "shape" or np.shape(vals[k])[0] > 1)]
        if not many:
            return None
        k = rng.choice(many)
        v = vals[k]
        # repeated values are hidden by broadcasting
        assign(s, k, np.repeat(v, 2, axis=rng.randrange(v.ndim))
               if kind == "shape" else np.array(v[:1]))
        return f"{kind} of {k}"
    if kind == "order":
        # the same values in another shape
        ks = [k for k in vals if kind_of(c, k) in ("double", "string") and
              np.asarray(vals[k]).dtype.kind in "fiuU" and
              np.size(vals[k]) > 2]
        if not ks:
            return None
        k = rng.choice(ks)
        shapes = [np.shape(vals[k])[::-1], (-1,)] + [
            (n, -1) for n in range(2, 7) if np.size(vals[k]) % n == 0]
        assign(s, k, np.reshape(vals[k], rng.choice(shapes)))
        return f"shape of {k}"
    if kind in ("string", "strings-shape"):
        ks = [k for k in vals if kind_of(c, k) == "string" and
              np.asarray(vals[k]).dtype.kind == "U" and np.size(vals[k])]
        if not ks:
            return None
        k = rng.choice(ks)
        v = np.array(vals[k]).astype("U")
        v = v.reshape(v.shape or (1,))
        if kind == "string":
            j = rng.randrange(v.size)
            w = str(v.reshape(-1)[j])
            new = other_word(rng, w)
            v = v.astype("U%d" % max(len(w), len(new), 1,
                                     v.dtype.itemsize // 4))
            v.reshape(-1)[j] = new
            if v.size == 1 and rng.random() < 0.3:
                v = new
        else:
            v = np.concatenate([v, v[:1]])
        assign(s, k, v)
        return f"{kind} of {k}"
    if kind == "attribute":
        ks = [k for k in vals if kind_of(c, k) == "attribute" and
              isinstance(vals[k], str)]
        k = rng.choice(ks)
        assign(s, k, other_word(rng, vals[k]))
        return f"attribute {k}"
    if kind == "add":
        n = "Added" + rng.choice("ABC")
        if rng.random() < 0.5:
            n = "GLOBAL_" + rng.choice(["AddedDate", "Added"])
        if n in vals:
            return None
        with mute():
            if n.startswith("GLOBAL_"):
                s.add_attribute(n, "x")
                types[n] = ("attribute", None)
            else:
                s.add_variable(n, 1.5, "double", "I")
                types[n] = ("double", "I")
        return "added " + n
    if kind == "delete":
        k = rng.choice([k for k in vals])
        s.protected = False
        delattr(s, k)
        s.protected = True
        return "deleted " + k
    if kind == "type":
        n = "Typed"
        if n in vals:
            t = kind_of(c, n)
            with mute():
                s.delete(n)
                if t == "double":
                    s.add_variable(n, rng.choice(["1.0", "x"]), "string",
                                   "IS")
                    types[n] = ("string", "IS")
                else:
                    s.add_variable(n, 1.0, "double", "I")
                    types[n] = ("double", "I")
        else:
            t = rng.choice(["double", "string"])
            with mute():
                s.add_variable(n, 1.0 if t == "double" else "1.0", t,
                               "I" if t == "double" else "IS")
            types[n] = (t, "I" if t == "double" else "IS")
        return "type of " + n
    return None


def other_word(rng, w):
    how = rng.choice(["append", "space", "case", "unicode", "cut", "new"])
    if how == "append":
        return w + "x"
    if how == "space":
        return w + " "
    if how == "case" and w.swapcase() != w:
        return w.swapcase()
    if how == "unicode":
        return w + "\u00e4"
    if how == "cut" and w:
        return w[:-1]
    new = rng.choice(gen.WORDS)
    return new if new != w else w + "y"


# -- listings ----------------------------------------------------------------------
NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)", re.I)


def body(text, key, what):
    """What is listed for an entry, up to the next one."""
    hits = [m.end() for m in re.finditer(
        "^" + re.escape(key) + " : ", text, re.M)]
    if not hits:
        raise Violation("not-listed", f"{what}: {key} is not listed")
    if len(hits) > 1:
        raise Violation("listed-twice", f"{what}: {key} is listed "
                                        f"{len(hits)} times")
    rest = text[hits[0]:]
    nxt = re.search(r"^\w+ : ", rest, re.M)
    return rest[:nxt.start()] if nxt else rest


def near(text, v, what, key):
    """Printed numbers are those of v (up to the printed digits)."""
    got = [float(x) for x in NUM.findall(text.replace("--", "nan"))]
    want = np.ma.filled(np.ma.asarray(v, "f8"), np.nan).reshape(-1)
    if len(got) != want.size or not np.allclose(
            got, want, rtol=1e-6, atol=max([1e-8] + [
                1e-6 * abs(x) for x in want if np.isfinite(x)]),
            equal_nan=True):
        raise Violation("listed-values", f"{what}: {key} is listed as "
                        f"{text[:200]!r} but is {want.tolist()[:8]}")


def listed_shape(text, what, key):
    m = re.match(r"\(((?:[^=(),]+=\d+(?:, )?)*)\)\n", text)
    if not m:
        raise Violation("listed-shape", f"{what}: {key} is listed as "
                                        f"{text[:100]!r}")
    return [(p.split("=")[0], int(p.split("=")[1]))
            for p in m.group(1).split(", ") if p]


def only(text, names, texts, what):
    """Nothing is listed that is not there."""
    inner = "\n".join(t for t in texts if isinstance(t, str))
    for m in re.finditer(r"^(\w+) : ", text, re.M):
        if m.group(1) not in names and m.group(0) not in inner:
            raise Violation("listed-more", f"{what}: {m.group(1)} is listed "
                                           "but not held")


def check_object(m, text, what):
    s = m["sofa"]
    vals = held(s)
    text = "\n" + text
    sizes = {}
    for k, v in vals.items():
        part = body(text, k, what)
        if kind_of(m, k) == "attribute" or isinstance(v, str):
            if not part.startswith(str(v) + "\n"):
                raise Violation("listed-values", f"{what}: {k} is listed as "
                                f"{part[:200]!r} but is {v!r}")
            continue
        if np.size(v) == 1:
            if numeric(v):
                near(part, v, what, k)
            elif np.asarray(v).dtype.kind == "U":
                w = str(np.asarray(v).reshape(-1)[0])
                # (arrays show the representation of strings)
                if repr(w)[1:-1] not in part and w not in part:
                    raise Violation("listed-values", (
                        f"{what}: {k} is listed as {part[:200]!r} but is "
                        f"{w!r}"))
            continue
        shp = listed_shape(part, what, k)
        got = tuple(n for _, n in shp)
        # (numbers are listed as they are stored: flat if there is only one
        # dimension, and a flat array is the last of several dimensions)
        num = kind_of(m, k) == "double"
        if c17.strip(got) != c17.strip(np.shape(v)) and not (
                len(got) == 1 and (got == squeeze(np.shape(v)) or
                                   num and got == (np.size(v), ))) and not (
                len(got) > 1 and np.ndim(v) == 1 and num and
                c17.strip(got) == (1, ) + np.shape(v)):
            raise Violation("listed-shape", f"{what}: {k} is listed as {got}"
                                            f" but has shape {np.shape(v)}")
        for d, size in shp:
            if d != "?" and sizes.setdefault(d, size) != size:
                raise Violation("listed-shape", (
                    f"{what}: {k} is listed with {d}={size} but before "
                    f"{d}={sizes[d]}"))
        dims = m["types"][k][1]
        if m["valid"] and dims:
            letters = "".join(d for d, _ in shp)
            if letters not in dims.upper().split(", "):
                raise Violation("listed-shape", f"{what}: {k} is listed with"
                                f" the dimensions {letters} instead of "
                                f"{dims}")
        if np.size(v) < 7 and numeric(v):
            near(part[part.index("\n"):], v, what, k)
    only(text, vals, [v for v in vals.values()] + [
        str(x) for v in vals.values() if isinstance(v, np.ndarray)
        for x in (v.reshape(-1) if v.dtype.kind == "U" else [])], what)


def check_file(full, text, what):
    r = gen.raw(full)
    text = "\n" + text
    names, texts = set(), []
    for a, v in r["attrs"].items():
        names.add("GLOBAL_" + a)
        texts.append(v)
        listed_attr(text, "GLOBAL_" + a, v, what)
    for var, (dims, dtype, data, attrs) in r["vars"].items():
        k = var.replace(".", "_")
        names.add(k)
        part = body(text, k, what)
        if data.size != 1:
            want = list(zip(dims, data.shape))
            got = listed_shape(part, what, k)
            if want != got:
                raise Violation("listed-shape", f"{what}: {k} is listed as "
                                f"{got} but has {want}")
            if data.size < 7 and data.dtype.kind in "fiu" and data.size:
                near(part[part.index("\n"):], data, what, k)
        elif data.dtype.kind in "fiu":
            near(part, data, what, k)
        for a, v in attrs.items():
            names.add(k + "_" + a)
            texts.append(v)
            listed_attr(text, f"{k}_{a}", v, what)
    only(text, names, texts, what)


def listed_attr(text, k, v, what):
    if isinstance(v, str):
        # (other attributes may contain anything, also whole lines)
        if f"\n{k} : {v}\n" not in text:
            raise Violation("listed-values", f"{what}: {k} is not listed as "
                                             f"{v!r}")
    elif np.asarray(v).dtype.kind in "fiu":
        near(body(text, k, what), np.asarray(v), what, k)


def inspect(env, plan, st, pool, n):
    i = st["inspect"]
    what = f"step {n} inspect {i['what']}"
    text = [None, "info.txt", env.disk + "/info.txt"][i["text"]]
    files = [m for m in pool if m.get("file")]
    m = full = None
    if i["what"] == "object":
        m = pool[i["of"] % len(pool)]
        a = () if text is None and i["how"] == "print" else (text, i["how"])
        fn = lambda: m["sofa"].inspect(*a)  # noqa: E731
    else:
        if i["what"] == "foreign":
            if not env.foreign:
                return
            full = env.foreign
        else:
            if not files:
                return
            full = os.path.join(env.disk,
                                files[i["of"] % len(files)]["file"])

        def fn():
            with sofar.SofaStream(full) as f:
                f.inspect(text)
                if i["again"]:
                    print("<again>")
                    f.inspect()
    path = os.path.join(env.disk, "info.txt")
    with env.quiet():
        if os.path.exists(path):
            os.remove(path)
        if i["of"] % 2:
            with open(path, "w") as f:
                f.write("GLOBAL_Old : listing of something else\n" * 400)
    if i["fault"]:
        f = dict(i["fault"])
        if f["op"] in ("write", "openw"):
            f["where"] = "/disk"
        ops.place(env, f, ops.dry(env, fn), f["where"])
    with mute() as (out, _):
        try:
            fn()
            res = "ok"
        except Exception as e:  # noqa: B902
            res, err = "raised", e
    fired = env.disarm()
    env.ev("inspect", i["what"], res, fired)
    if res == "raised":
        if not fired and (m is None or known(m["sofa"]) and (
                i["how"] != "raise" or m["valid"])):
            raise Violation("inspect-raised", f"{what}: "
                            f"{type(err).__name__}: {err}")
        env.probe("inspect-failed")
        return
    if fired and i["fault"]["op"] in ("write", "openw"):
        raise Violation("inspect-silent", f"{what}: the text file could not "
                        f"be written, but nothing was raised")
    shown = out.getvalue()
    if i["again"] and full:
        shown, second = shown.split("<again>\n")
        if shown.strip() != second.strip():
            raise Violation("inspect-again", f"{what}: different output when "
                            "inspected again")
    if text:
        with env.quiet():
            with open(path, encoding="utf-8", newline="") as f:
                stored = f.read()
        if stored.strip("\n") not in shown:
            raise Violation("inspect-file", f"{what}: the text file differs "
                                            "from what is printed")
    if m:
        # (issues found by the verification are printed before)
        head = re.search(r"^.*\(SOFA version .*\)\n-+\n", shown, re.M)
        check_object(m, shown[head.end():] if head else shown, what)
    else:
        with env.quiet():
            check_file(full, shown, what)
    env.answers.append(hash_text(shown))
    env.probe("inspected-" + i["what"])


def known(s):
    """Does the object name a convention that exists?"""
    v = vars(s)
    return "_".join(str(v.get("GLOBAL_SOFAConventions" + x))
                    for x in ("", "Version")) in gen.TABLES


def hash_text(t):
    import hashlib
    return hashlib.sha1(t.encode()).hexdigest()[:12]


def start(spec):
    b = must("build", gen.build, spec)
    return {"sofa": b.sofa, "types": b.types, "spec": b.spec, "valid": True}


def run(env, plan):
    env.answers, env.foreign = [], None
    if plan["foreign"]:
        with env.quiet():
            c = c17.compose(plan["foreign"])
            c[1].setdefault("Version", "1.0")
            if not isinstance(c[1].get("Version"), str):
                c[1]["Version"] = "1.0"
            env.foreign = os.path.join(env.disk, "foreign.sofa")
            c17.create(env.foreign, plan["foreign"], c)
    pool = [start(plan["new"])]
    for n, st in enumerate(plan["steps"]):
        derive(env, plan, st, pool)
        for i, j, how, verbose in st["compare"]:
            m, k = pool[i % len(pool)], pool[j % len(pool)]
            judge(env, m, k, how, verbose, f"step {n}")
        if st["inspect"]:
            inspect(env, plan, st, pool, n)
    env.state = str(env.answers)
