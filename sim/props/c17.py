"""C17: data can be salvaged whatever the file names as its convention."""
import os
import random

import numpy as np

from .. import convdb, gen, ops
from ..kernel import Violation, call, mute
from .c04 import MUTATING
import sofar

RUNS = {"quick": 2700, "thorough": 24000}
RULE = ("in a run other (simulated) programs write files of seeded layout, "
        "data types, attributes and conventions, the convention database is "
        "removed, damaged or becomes unreadable in between, and the files "
        "are read by all readers under seeded read faults; non-trivial if "
        "the file or the database is not one that read_sofa accepts")
STATE = "hash of the final contents of the simulated disk"
ASSUMPTIONS = ["numeric and fixed-length character data in the root group; "
               "no variable-length or compound types",
               "names that do not collide with each other, with methods of "
               "Sofa or with the private names of the object (leading "
               "underscore)",
               "characters are UTF-8"]

FORMATS = ["NETCDF4"] * 5 + ["NETCDF4_CLASSIC", "NETCDF3_CLASSIC",
                             "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]
DBS = ["ok", "ok", "gone", "empty", "no-conventions", "no-rules", "garbage",
       "torn", "no-files", "unreadable", "unreadable", "incomplete"]
VARS = ["Data.IR", "Data.Real", "Data.Imag", "Data.SamplingRate",
        "Data.Delay", "Data.SOS", "ListenerPosition", "SourcePosition",
        "SourceView", "N", "M", "R", "time", "HRIR_left", "x", "Temperature",
        "ReceiverDescriptions", "measurement.date", "Data", "RoomCorners",
        "pressure_level", "GLOBALTemp", "data", "S"]
ATTRS = ["Units", "Type", "LongName", "long_name", "standard_name", "name",
         "dimensions", "size", "Comment", "shape", "dtype",
         "Note2", "History", "group", "mask_and", "datatype"]
GATTRS = ["Title", "History", "Comment", "DatabaseName", "AuthorContact",
          "institution", "source", "name", "path", "Version", "Conventions",
          "DateCreated", "file_format", "groups", "Room_Type", "variables",
          "SOFAConventions2", "keepweakref"]
DIMS = ["M", "R", "N", "E", "C", "I", "S", "time", "lat", "unlim", "m2"]
CONVS = ["GeneralTF", "GeneralFIR", "SimpleFreeFieldHRIR", "Unknown",
         "FreeFieldHRTF", "", "../GeneralTF", "General*", "sofa"]
VERSIONS = ["1.0", "2.0", "0.1", "99.0", "", "one", "1.0.3", "latest"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "files": [], "steps": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = {"seed": rng.randrange(1 << 30), "format": rng.choice(FORMATS),
             "kind": rng.choice(["foreign", "foreign", "sofa"]),
             "vars": rng.randrange(0, 7), "attrs": rng.randrange(0, 6),
             "stem": rng.choice(ops.STEMS), "spell": rng.choice(ops.SPELL),
             "conv": None}
        if f["kind"] == "sofa":
            f["format"] = rng.choice(["NETCDF4"] * 4 + FORMATS)
        if f["kind"] == "sofa" or rng.random() < 0.5:
            f["conv"] = [rng.choice(CONVS[:1] * 6 + CONVS),
                         rng.choice(VERSIONS[:2] * 4 + VERSIONS)]
            if rng.random() < 0.15:
                f["conv"][rng.randrange(2)] = None
            if rng.random() < 0.1:
                f["conv"][1] = rng.choice([1, 2.0])
        plan["files"].append(f)
    for _ in range(rng.randrange(2, 7 if tier == "quick" else 12)):
        do = rng.choice(["netcdf"] * 5 + ["read", "read-verify", "read-raw",
                                          "db", "db"])
        st = {"do": do, "file": rng.randrange(3),
              "seed": rng.randrange(1 << 30), "faults": []}
        if do == "db":
            st["kind"] = rng.choice(DBS)
        elif rng.random() < 0.25:
            st["faults"] = [ops.gen_write_fault(rng, True)
                            for _ in range(rng.choice([1, 1, 2]))]
            for f in st["faults"]:
                f["op"] = "read"
        plan["steps"].append(st)
    return plan


# -- files of other programs --------------------------------------------------
def number_array(rng, typ, shape):
    n = int(np.prod(shape, dtype=int))
    t = np.dtype(typ)
    if t.kind == "f":
        v = [rng.choice([0.0, 1.5, -2.25, 1e-3, 1 / 3, 1e30, float("nan"),
                         float("inf")]) for _ in range(n)]
        return np.array(v, t).reshape(shape)
    i = np.iinfo(t)
    pool = [0, 1, 2, 7, i.max - 3, i.min + 3 if i.min else 3]
    if t.itemsize == 8:
        pool += [2 ** 53 + 1, 2 ** 61 + 5]
    return np.array([rng.choice(pool) for _ in range(n)], t).reshape(shape)


def attr_value(rng, classic):
    k = rng.random()
    if k < 0.7:
        return rng.choice([w for w in gen.WORDS if w])
    if k < 0.8:
        return rng.choice([1, 2.5, np.float32(0.5), np.int16(3)])
    if k < 0.9:
        return np.array([1.0, 2.0, 3.0])
    if k < 0.95 and not classic:
        return np.arange(3, dtype="i8")
    return "" if not classic else "x"


def compose(f):
    """What the file is going to contain: dims, attributes, variables."""
    rng = random.Random(f["seed"])
    classic = f["format"] != "NETCDF4"
    types = ["i1", "i2", "i4", "f4", "f8", "f8", "f8", "S1", "S1"]
    if not classic:
        types += ["i8", "u1", "u2", "u4", "u8", ">f8", ">i4", ">f4"]
    dims = {d: rng.choice([1, 1, 2, 3, 4]) for d in DIMS}
    if rng.random() < 0.1:
        dims[rng.choice(["lat", "time"])] = 0
    attrs, variables = {}, {}
    if f["kind"] == "sofa":
        attrs.update({"Conventions": "SOFA", "Version": "2.1",
                      "DataType": "TF", "RoomType": "free field"})
        dims.update({"C": 3, "I": 1, "M": 2})
        for k in ("Data.Real", "Data.Imag"):
            variables[k] = ("f8", ("M", "R", "N"),
                            np.arange(2.0 * dims["R"] * dims["N"]).reshape(
                                2, dims["R"], dims["N"]), {})
    if f["conv"]:
        for k, v in zip(("SOFAConventions", "SOFAConventionsVersion"),
                        f["conv"]):
            if v is not None:
                attrs[k] = v
    names = {"GLOBAL_" + k for k in attrs} | {
        gen.sofar_name(k) for k in variables}

    def new(name):
        if name in names or hasattr(sofar.Sofa, name):
            return False
        names.add(name)
        return True
    for _ in range(f["attrs"]):
        k = rng.choice(GATTRS)
        if new("GLOBAL_" + k):
            attrs[k] = attr_value(rng, classic)
    for _ in range(f["vars"]):
        k = rng.choice(VARS)
        if not new(k.replace(".", "_")):
            continue
        typ = rng.choice(types)
        nd = rng.choice([0, 1, 2, 2, 3, 3, 4])
        ds = tuple(rng.sample([d for d in DIMS if d not in ("S", "unlim")],
                              nd))
        if nd and rng.random() < 0.15:
            ds = ("unlim",) + ds[1:]
        if typ == "S1":
            at = rng.choice([nd, nd, nd, rng.randrange(nd + 1)])
            if nd and rng.random() < 0.7:
                ds = (ds[:at] + ("S",) + ds[at:])[-4:]
            if "unlim" in ds:   # only allowed as the first one
                ds = ("unlim",) + tuple(d for d in ds if d != "unlim")
            # (the library can not join strings of zero characters)
            if ds and not dims["S" if "S" in ds else ds[-1]]:
                dims["lat"] = dims["time"] = 1
            shape = tuple(dims[d] for d in ds)
            data = np.array([rng.choice([b"a", b"Z", b"7", b" ", b"-"])
                             for _ in range(int(np.prod(shape, dtype=int)))],
                            "S1").reshape(shape)
        else:
            data = number_array(rng, typ, tuple(dims[d] for d in ds))
        va = {}
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            a = rng.choice(ATTRS)
            if new(k.replace(".", "_") + "_" + a):
                va[a] = attr_value(rng, classic)
        variables[k] = (typ, ds, data, va)
    return dims, attrs, variables


def create(full, f, c):
    from netCDF4 import Dataset
    dims, attrs, variables = c
    order = random.Random(f["seed"] + 1)
    classic3 = f["format"].startswith("NETCDF3") or \
        f["format"] == "NETCDF4_CLASSIC"
    with mute(), Dataset(full, "w", format=f["format"]) as o:
        used = {d for v in variables.values() for d in v[1]} | {"M", "R"}
        for d in dims:
            if d in used:
                # (a dimension of size zero is unlimited for netCDF 3)
                n = dims[d]
                if n == 0 and classic3:
                    n = dims[d] = 1
                o.createDimension(d, None if d == "unlim" else n)
        for k, v in attrs.items():
            o.setncattr(k, v)
        names = list(variables)
        order.shuffle(names)
        for k in names:
            typ, ds, data, va = variables[k]
            if data.shape != tuple(dims[d] for d in ds):
                data = np.resize(data, tuple(dims[d] for d in ds)) \
                    if data.size else np.zeros(
                        tuple(dims[d] for d in ds), data.dtype)
                if data.dtype.kind == "S":
                    data = np.full(data.shape, b"q", "S1")
                variables[k] = (typ, ds, data, va)
            kw = {"endian": "big"} if typ[0] == ">" else {}
            v = o.createVariable(k, typ.lstrip(">"), ds, **kw)
            v.set_auto_maskandscale(False)
            v.set_auto_chartostring(False)
            for a, w in va.items():
                v.setncattr(a, w)
            if data.size or not ds:
                v[...] = data


def expected(c):
    """{name of the entry: value}, strings joined."""
    dims, attrs, variables = c
    out = {"GLOBAL_" + k: ("attr", v) for k, v in attrs.items()}
    for k, (typ, ds, data, va) in variables.items():
        n = k.replace(".", "_")
        if typ == "S1":
            ax = ds.index("S") if "S" in ds else len(ds) - 1
            d = np.moveaxis(data, ax, -1) if ds else data.reshape(1)
            flat = np.ascontiguousarray(d).reshape(-1, d.shape[-1]) \
                if d.size else np.zeros((0, 1), "S1")
            words = [b"".join(r).decode() for r in flat]
            shape = list(data.shape)
            if ds:
                shape[ax] = 1
            out[n] = ("str", tuple(shape), words)
        else:
            out[n] = ("num", data.shape, data)
        for a, v in va.items():
            out[n + "_" + a] = ("attr", v)
    # unlimited dimensions grow with the longest variable (all equal here)
    return out


def strip(shape):
    shape = list(shape)
    while shape and shape[-1] == 1:
        shape.pop()
    return tuple(shape)


def matches(want, got):
    kind = want[0]
    if kind == "attr":
        v = want[1]
        if isinstance(v, str):
            return isinstance(got, str) and str(got) == v
        return not isinstance(got, str) and np.array_equal(
            np.asarray(v).reshape(-1), np.asarray(got).reshape(-1))
    shape = tuple(want[1])
    if isinstance(got, np.ma.MaskedArray):
        return False
    a = np.asarray(got)
    n = int(np.prod(shape, dtype=int))
    if a.size != n:
        return False
    if n > 1 and strip(a.shape) != strip(shape):
        return False
    if kind == "str":
        return a.dtype.kind == "U" and [
            str(x) for x in a.reshape(-1)] == [x.rstrip("\0")
                                               for x in want[2]]
    w = want[2]
    # (comparisons of int and float are exact in Python)
    return a.dtype.kind in "fiu" and all(
        x == y or (x != x and y != y) for x, y in zip(
            a.reshape(-1).tolist(), w.reshape(-1).tolist()))


def compare(s, want, what):
    got = {k: v for k, v in vars(s).items() if not k.startswith("_")}
    if set(got) != set(want):
        raise Violation("entries", (
            f"{what}: missing {sorted(set(want) - set(got))}, "
            f"surplus {sorted(set(got) - set(want))}"))
    for k, w in want.items():
        if not matches(w, got[k]):
            raise Violation("values", f"{what}: {k} is {got[k]!r:.300} but "
                                      f"the file holds {w!r:.300}")


# -- the convention database --------------------------------------------------
def change_db(env, kind, rng):
    """Returns whether conventions and rules are still all there."""
    env.disarm()
    good = convdb.files()
    files = dict(good)
    if kind == "no-conventions":
        files = {k: v for k, v in files.items() if "rules" in k}
    elif kind == "no-rules":
        files = {k: v for k, v in files.items() if "rules" not in k}
    elif kind == "garbage":
        for k in files:
            files[k] = rng.choice(["", "{", "[]", "null", "{}", "\0\0\0"])
    elif kind == "torn":
        for k in files:
            files[k] = files[k][:rng.randrange(len(files[k]))]
    elif kind == "incomplete":
        for k in sorted(files):
            if rng.random() < 0.6:
                del files[k]
    if kind in ("gone", "empty"):
        import shutil
        with env.quiet():
            env.fresh_db(good)
            shutil.rmtree(env.db)
            if kind == "empty":
                os.makedirs(env.db)
        return False
    env.fresh_db(files)
    if kind == "no-files":
        with env.quiet():
            for k in files:
                p = os.path.join(env.db, k)
                os.remove(p)
                os.makedirs(p)
    if kind == "unreadable":
        env.arm("openr", "error", 1, "/rundb",
                rng.choice(["EACCES", "EIO", "EMFILE"]), 0, 1)
    return kind == "ok"


def run(env, plan):
    env.fresh_db(convdb.files())
    files, good, kind = [], True, "ok"
    for f in plan["files"]:
        if any(f["stem"] == x[0]["stem"] for x in files):
            continue
        c = compose(f)
        with env.quiet():
            full = os.path.join(env.disk, ops.target(f["stem"]))
            os.makedirs(os.path.dirname(full), exist_ok=True)
            create(full, f, c)
        files.append((f, ops.spell(env, f["stem"], f["spell"]), expected(c)))
    keep = sofar.Sofa("GeneralTF")
    keep_print = gen.fingerprint(keep)
    disk = env.snapshot()
    out = []
    for n, st in enumerate(plan["steps"]):
        rng = random.Random(st["seed"])
        if st["do"] == "db":
            kind = st["kind"]
            good = change_db(env, kind, rng)
            env.probe("db-" + kind)
            continue
        f, name, want = files[st["file"] % len(files)]
        what = f"step {n} ({st['do']}, database {kind})"

        def fn():
            if st["do"] == "netcdf":
                return sofar.read_sofa_as_netcdf(name)
            return sofar.read_sofa(name, {
                "read": "auto", "read-verify": True,
                "read-raw": False}[st["do"]], rng.random() < 0.5)
        if kind != "unreadable":
            # (the netCDF library does not repeat short reads of netCDF 3)
            log = ops.dry(env, fn) if st["faults"] and \
                "NETCDF4" in f["format"] else []
            for x in st["faults"]:
                ops.place(env, x, log)
        fds = env.open_fds()
        start = env.nlog()
        res, s = call(fn)
        if kind != "unreadable":
            env.disarm()
        env.ev(st["do"], kind, res, type(s).__name__)
        if env.snapshot() != disk:
            raise Violation("disk-changed", f"{what} changed files")
        bad = [e for e in env.log(start) if e[0] in MUTATING and
               e[1].startswith("/disk")]
        if bad:
            raise Violation("disk-changed", f"{what}: {bad[:3]}")
        if env.open_fds() != fds:
            raise Violation("file-open", f"{what} left a file open")
        if st["do"] == "netcdf":
            if not good or f["kind"] == "foreign" or f["conv"] != [
                    "GeneralTF", "1.0"]:
                env.probe("nontrivial")
            if res == "raised":
                raise Violation("not-salvaged", (
                    f"{what}: {type(s).__name__}: {s}"))
            compare(s, want, what)
            if s.protected is not True:
                raise Violation("unprotected", what)
        elif res == "raised":
            env.probe("refused")
        else:
            env.probe("accepted")
            compare(s, want, what)
        out.append(res)
    env.disarm()
    env.fresh_db(convdb.files())
    gen.unchanged("object-changed", keep_print, gen.fingerprint(keep),
                  "an object that was not involved")
    for f, name, want in files:
        res, s = call(sofar.read_sofa_as_netcdf, name)
        if res == "raised":
            raise Violation("not-salvaged", f"finally: {s!r}")
        compare(s, want, "finally")
    env.state = "".join(sorted(disk.values()))[:64]
