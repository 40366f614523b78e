"""C07: numeric values that were never stored are flagged as missing."""
import os
import random
import re

import numpy as np

from .. import gen, ops, readers
from ..kernel import Violation, call, must
import sofar

RUNS = {"quick": 1950, "thorough": 16000}
RULE = ("in a run another (simulated) program writes a file in a seeded "
        "order, leaving out seeded values, or crashing at a seeded system "
        "call, then all readers of sofar read it; non-trivial if values are "
        "missing or a fault fired")
STATE = "hash of the final contents of the simulated disk"
ASSUMPTIONS = ["stored values that equal the netCDF fill value cannot be "
               "told from values never stored; none are generated",
               "numeric data only: missing characters of strings read as "
               "empty strings"]
HOW = ["all", "all", "rows", "tail", "random", "one", "one", "last"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, small=True, big=True),
            "stem": rng.choice(ops.STEMS), "spell": rng.choice(ops.SPELL),
            "seed": rng.randrange(1 << 30), "zlib": int(rng.random() < 0.4),
            "unlimited": int(rng.random() < 0.25), "crash": None,
            "miss": [], "dtypes": int(rng.random() < 0.4),
            "slabs": int(rng.random() < 0.5),
            "fill": int(rng.random() < 0.1), "reads": [], "faults": []}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        plan["miss"].append([rng.randrange(1 << 20), rng.choice(HOW),
                             rng.randrange(1 << 20)])
    if rng.random() < 0.3:
        plan["crash"] = {"op": "write",
                         "act": rng.choice(["crash-before", "crash-torn",
                                            "crash-after"]),
                         "at": rng.randrange(1000),
                         "arg": rng.randrange(1000)}
        plan["fill"] = 0
    plan["reads"] = [rng.choice(["read", "read", "read-verify", "read-raw",
                                 "netcdf"])
                     for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.3:
        plan["faults"] = [ops.gen_write_fault(rng, True)]
    return plan


def pick(arr_shape, how, seed):
    """The mask of the values that are never stored."""
    rng = random.Random(seed)
    m = np.zeros(arr_shape, bool)
    flat = m.reshape(-1)
    if how == "all":
        m[...] = True
    elif how == "rows":
        for r in range(m.shape[0]):
            m[r] = rng.random() < 0.5
    elif how == "tail":
        m[rng.randrange(m.shape[0]):] = True
    elif how == "random":
        for k in range(flat.size):
            flat[k] = rng.random() < 0.3
    elif how == "one":
        flat[rng.randrange(flat.size)] = True
    elif how == "last":
        flat[-1] = True
    return m


def choose(r, plan):
    """{netCDF variable: mask}"""
    rng = random.Random(plan["seed"])
    nums = [v for v, (d, dt, a, _) in r["vars"].items() if dt != "|S1"]
    keep = None
    if plan["unlimited"]:
        # something has to extend the dimension to its full size
        withm = [v for v in nums if r["vars"][v][0][0] == "M"]
        keep = rng.choice(withm) if withm else None
    out = {}
    for k, how, seed in plan["miss"]:
        v = nums[k % len(nums)]
        if v != keep:
            m = pick(r["vars"][v][2].shape, how, seed)
            out[v] = out.get(v, False) | m
    out = {v: m for v, m in out.items() if m.any()}
    types = {}
    for v in nums:
        types[v] = "f8"
        if plan["dtypes"] and rng.random() < 0.4:
            types[v] = rng.choice(["f4", "i4", "i8", "i2"])
    return out, types, keep


def convert(arr, typ):
    if typ[0] == "i":
        return np.where(np.isfinite(arr), np.clip(np.nan_to_num(arr), -900,
                                                  900), 7).astype(typ)
    arr = np.where(arr == -999, 7, arr)
    if typ == "f4":
        with np.errstate(all="ignore"):
            return np.clip(arr, -1e30, 1e30).astype(typ)
    return arr.astype(typ)


def foreign_write(path, r, plan, missing, types, values):
    """Another program writes the file, with netCDF4 only."""
    from netCDF4 import Dataset
    rng = random.Random(plan["seed"] + 1)
    with Dataset(path, "w", format="NETCDF4") as f:
        for d, n in r["dims"].items():
            f.createDimension(d, None if d == "M" and plan["unlimited"] and
                              plan["keep"] else n)
        for a, v in r["attrs"].items():
            f.setncattr(a, v)
        order = list(r["vars"])
        rng.shuffle(order)
        created = {}
        for v in order:
            dims, dt, data, attrs = r["vars"][v]
            t = "S1" if dt == "|S1" else types[v]
            kw = {}
            if plan["fill"] and dt != "|S1" and v in missing:
                kw["fill_value"] = np.array(-999, t)[()]
            o = f.createVariable(v, t, dims, zlib=bool(plan["zlib"]), **kw)
            o.set_auto_mask(False)
            o.set_auto_chartostring(False)
            for a, w in attrs.items():
                o.setncattr(a, w)
            created[v] = o
        rng.shuffle(order)
        if plan["unlimited"] and plan["keep"]:
            order.remove(plan["keep"])
            order.insert(0, plan["keep"])
        for v in order:
            o, data = created[v], values[v]
            m = missing.get(v)
            if m is None:
                if plan["slabs"]:
                    for k in range(data.shape[0]):
                        o[k:k + 1] = data[k:k + 1]
                else:
                    o[:] = data
            else:
                for idx in zip(*np.nonzero(~m)):
                    o[idx] = data[idx]
            if rng.random() < 0.2:
                f.sync()


def run(env, plan):
    b = must("build", gen.build, plan["new"])
    stem = plan["stem"]
    name = ops.spell(env, stem, plan["spell"])
    full = os.path.join(env.disk, ops.target(stem))
    must("write-failed", sofar.write_sofa, name, b.sofa)
    with env.quiet():
        r = gen.raw(full)
        os.remove(full)
    missing, types, plan["keep"] = choose(r, plan)
    values = {v: (d[2] if d[1] == "|S1" else convert(d[2], types[v]))
              for v, d in r["vars"].items()}

    def writer():
        foreign_write(full, r, plan, missing, types, values)
    crashed = False
    if plan["crash"]:
        ops.place(env, plan["crash"], ops.dry(env, writer))
        crashed = env.process(writer)[0] != "done"
        env.disarm()
        if not os.path.isfile(full):
            return
    else:
        writer()
    # what is in the file, according to another reader
    want, gone, wantnc = expectation(env, full, r, values, missing, crashed,
                                     b)
    if want is None:
        env.probe("unreadable-file")
    for kind in plan["reads"]:
        read_and_judge(env, plan, b, kind, name, full, want, gone, crashed)
    if want is not None and not crashed and not plan["fill"]:
        rewrite(env, b, name, full, want, gone)
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def expectation(env, full, r, values, missing, crashed, b):
    if not crashed:
        model = dict(b.model)
        for v, (dims, dt, data, _) in r["vars"].items():
            if dt != "|S1":
                m = missing.get(v)
                a = np.ma.array(values[v], mask=m if m is not None else False)
                model[gen.sofar_name(v)] = gen.canon_num(a, "".join(dims))
        gone = {v for v, m in missing.items() if m.any()}
        if gone:
            env.probe("nontrivial")
            env.probe("entries-missing", len(gone))
        return model, gone, r
    from netCDF4 import default_fillvals
    with env.quiet():
        try:
            now = gen.raw(full)
        except (OSError, RuntimeError):
            return None, set(), None
    model = gen.raw_content(now, {})
    gone = set()
    for v, (dims, dt, data, _) in now["vars"].items():
        if dt != "|S1":
            m = data == default_fillvals[data.dtype.str[1:]]
            model[gen.sofar_name(v)] = gen.canon_num(
                np.ma.array(data, mask=m), "".join(dims))
            if m.any():
                gone.add(v)
    env.probe("readable-after-crash")
    if gone:
        env.probe("missing-after-crash")
    return model, gone, now


def mentions(text, v):
    return any(re.search(r"(?<![\w.])" + re.escape(n) + r"(?![\w.]*\w)", text)
               for n in (v, gen.sofar_name(v)))


def read_and_judge(env, plan, b, kind, name, full, want, gone, crashed):
    from ..kernel import mute

    def read():
        if kind == "netcdf":
            return sofar.read_sofa_as_netcdf(name)
        return sofar.read_sofa(name, {"read": "auto", "read-verify": True,
                                      "read-raw": False}[kind], False)
    if plan["fill"] and kind not in ("read-raw", "netcdf") and gone:
        return                  # _FillValue is not an attribute of SOFA
    if plan["faults"]:
        log = ops.dry(env, read)
        for f in plan["faults"]:
            ops.place(env, f, log)
    with mute() as (out, w):
        try:
            s, err = read(), None
        except Exception as e:  # noqa: B902
            s, err = None, e
    env.disarm()
    env.ev(kind, type(err).__name__, sorted(gone))
    if err is not None:
        if not crashed:
            raise Violation("read-failed", (
                f"{kind}: {type(err).__name__}: {err}"))
        return
    if want is None:
        raise Violation("misread", f"{kind}: returned something from an "
                                   "unreadable file")
    got = gen.content(s, b.types)
    if plan["fill"]:
        got = {k: v for k, v in got.items() if not k.endswith("_FillValue")}
    gen.same("missing-values", want, got, kind)
    names = {gen.sofar_name(v) for v in gone}
    for k, v in vars(s).items():
        if k.startswith("_"):
            continue
        if isinstance(v, np.ma.MaskedArray) != (k in names):
            raise Violation("masked-type", (
                f"{kind}: {k} is {type(v).__name__}, but its values are "
                + ("missing" if k in names else "complete")))
    texts = [str(x.message) for x in w if "missing data" in str(x.message)]
    for v in gone:
        if not any(mentions(t, v) for t in texts):
            raise Violation("no-warning", (
                f"{kind}: no warning about missing data of {v}: {texts}"))
    for t in texts:
        if not any(mentions(t, v) for v in gone):
            raise Violation("wrong-warning", f"{kind}: {t}")


def rewrite(env, b, name, full, want, gone):
    """Missing values are still missing after sofar saved the object."""
    s = must("read-failed", sofar.read_sofa, name, "auto", False)
    res, v = call(sofar.write_sofa, name, s)
    if res == "raised":
        raise Violation("rewrite-failed", f"{type(v).__name__}: {v}")
    s = must("read-failed", sofar.read_sofa, name, "auto", False)
    gen.same("missing-after-rewrite", want, gen.content(s, b.types),
             "after writing and reading again")
