"""Generation of SOFA objects from small JSON specifications, and the model
(what such an object holds), which is independent of sofar."""
import random
import numpy as np

from . import convdb
from .kernel import Violation, Discard

TABLES = convdb.tables()
CURRENT = [k for k, (dep, _) in TABLES.items() if not dep]
DEPRECATED = [k for k, (dep, _) in TABLES.items() if dep]
# conventions whose objects verify in write mode
WRITABLE = [k for k in TABLES
            if k.split("_")[0] not in ("SimpleFreeFieldTF",
                                       "MultiSpeakerBRIR")
            and float(k.split("_")[1]) >= 1.0] + ["SingleRoomDRIR_0.3"]
STD = "ERMNCIS"
AUTO = ["GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
        "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
        "GLOBAL_ApplicationVersion"]
FREE_ATTR = ["GLOBAL_AuthorContact", "GLOBAL_Comment", "GLOBAL_History",
             "GLOBAL_License", "GLOBAL_Organization", "GLOBAL_References",
             "GLOBAL_Origin", "GLOBAL_Title", "GLOBAL_DatabaseName",
             "GLOBAL_ListenerShortName", "GLOBAL_Musician",
             "GLOBAL_ApplicationName", "GLOBAL_ApplicationVersion",
             "GLOBAL_RoomShortName", "GLOBAL_RoomDescription",
             "GLOBAL_ListenerDescription", "GLOBAL_SourceDescription",
             "GLOBAL_EmitterDescription", "GLOBAL_SourceType"]
OPT_DROP = [["GLOBAL_Comment"], ["GLOBAL_History"], ["GLOBAL_References"],
            ["GLOBAL_Origin"], ["GLOBAL_ApplicationName"],
            ["GLOBAL_ApplicationVersion"], ["ListenerUp"],
            ["ListenerUp", "ListenerView", "ListenerView_Type",
             "ListenerView_Units"],
            ["SourceUp"],
            ["SourceUp", "SourceView", "SourceView_Type",
             "SourceView_Units"],
            ["RoomTemperature", "RoomTemperature_Units"],
            ["RoomVolume", "RoomVolume_Units"],
            ["SourceManufacturer"], ["SourceModel"], ["SourceURI"],
            ["ReceiverDescriptions"], ["EmitterDescriptions"],
            ["Descriptions"], ["MeasurementDate"], ["EmitterMidiNote"],
            ["GLOBAL_Musician"], ["GLOBAL_Description"],
            ["SourceTuningFrequency", "SourceTuningFrequency_Units"]]
WORDS = ["", "a", "hello world", "x" * 300, "line\nbreak", " padded ",
         "quote\"s'", "tab\there", "0", "1.0", "M\u00fcller \u00e9\u4e2d",
         "nul-free; semi, comma", "None", "True", "\u03b1", "a/b\\c",
         "{'a': 1}", "trailing\n"]
ASCII_WORDS = ["", "a", "mic", "Genelec 8020", "x" * 40, " lead", "trail ",
               "a\tb", "0", "1.5", "nan", "http://x.y/z?q=1&r=2", "A,B",
               "#!$%&/()="]
CVARS = ["Temperature", "MyData", "humidity", "Xx", "DataQuality", "Mic",
         "CustomDatabase", "Data1", "GLOBALish", "ListenerPositionRaw",
         "e", "WindSpeed", "Data"]
CVARS = [c for c in CVARS if not c.startswith("GLOBAL")]
CATTR = ["GLOBAL_DateMeasured", "GLOBAL_Xyz", "GLOBAL_Type", "GLOBAL_a",
         "GLOBAL_RoomLocation2", "GLOBAL_MyData", "ListenerPosition_Note",
         "GLOBAL_name", "GLOBAL_filepath", "ListenerPosition_size",
         "ReceiverPosition_Comment", "SourcePosition_Accuracy",
         "EmitterPosition_x", "GLOBAL_DataNote", "Data_IR_Note",
         "Data_Real_Channel", "Data_SamplingRate_name", "Data_Delay_Comment",
         "Data_SOS_x", "N_Note"]


def rows(conv):
    return TABLES[conv][1]


def sofar_name(name):
    return name.replace(":", "_").replace(".", "_")


def conv_info(conv):
    """sofar name -> (default, flags, dims, type)"""
    return {sofar_name(n): (d, f, dims, t)
            for n, d, f, dims, t, _ in rows(conv)}


# -- the specification -----------------------------------------------------
def gen_spec(rng, convs=None, small=False, custom=True, big=False,
             strings=True, strange=True):
    conv = rng.choice(convs or WRITABLE)
    hi = 3 if small else 5
    info = conv_info(conv)
    n_mult = "Data_SOS" in info
    spec = {"conv": conv, "seed": rng.randrange(1 << 30),
            "M": rng.choice([1, 1, 2, 3, hi]),
            "N": rng.choice([1, 2, 3, 4, hi, 8 if small else 16]),
            "R": rng.choice([1, 2, 2, 3]), "E": 1}
    if big and rng.random() < 0.15:
        spec["M"], spec["N"] = rng.choice([(40, 64), (3, 2000), (200, 7)])
    if n_mult:
        spec["N"] = 6 * min(spec["N"], 4)
    if conv.split("_")[0] in ("SingleRoomMIMOSRIR", "GeneralFIR-E",
                              "FreeFieldHRIR", "GeneralFIR", "GeneralTF",
                              "SimpleHeadphoneIR", "SingleRoomDRIR",
                              "FreeFieldDirectivityTF", "GeneralSOS"):
        spec["E"] = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.1:
        spec["R"] = rng.choice([4, 5, 7])
    attrs = {}
    for a in FREE_ATTR:
        if a in info and rng.random() < 0.25:
            attrs[a] = rng.choice(WORDS) if strange else \
                rng.choice(ASCII_WORDS)
    spec["attrs"] = attrs
    spec["drop"] = []
    for group in OPT_DROP:
        if rng.random() < 0.2:
            present = [g for g in group if g in info]
            if present and len(present) == len(group) and \
                    not any(g in attrs for g in group):
                need = {"ListenerUp", "SourceUp"}
                if len(group) > 1 and group[0] in need and \
                        any(group[0] in g for g in spec["drop"]):
                    continue
                if any(set(group) & set(g) for g in spec["drop"]):
                    continue
                if "GLOBAL_RoomDescription" in group:
                    continue
                spec["drop"].append(group)
    spec["sph"] = [p for p in ("ListenerPosition", "SourcePosition",
                               "ReceiverPosition", "EmitterPosition")
                   if rng.random() < 0.2]
    spec["unit"] = rng.choice(["metre", "meter", "metres"])
    spec["form"] = rng.choice(["full", "mix", "mix", "mix", "list"])
    spec["strings"] = bool(strings)
    spec["custom"] = []
    if custom:
        names = CVARS[:]
        rng.shuffle(names)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            nm = names.pop()
            if nm in info:
                continue
            dims = rng.choice(["I", "M", "MI", "MC", "IC", "R", "RCI", "MR",
                               "MRN", "MRE", "E", "N", "Q", "MQ", "QM", "IQ",
                               "QP", "MRNE", "CI", "QI", "MII", "NI", "QQ",
                               "PMP", "MRNEQ", "QMPIC"])
            typ = "double"
            if strings and rng.random() < 0.35:
                typ = "string"
                dims = rng.choice(["MS", "IS", "QS", "RS", "ES", "MQS",
                                   "MRS", "IMRS", "RSM", "SM", "QSM", "QQS",
                                   "MRNES", "MSRPQ"])
            spec["custom"].append(
                {"kind": "var", "name": nm, "dtype": typ, "dims": dims,
                 "attr": rng.choice([None, None, "Units", "Note",
                                         "name", "shape"]),
                 "word": rng.choice(WORDS if strange else ASCII_WORDS)})
        for a in CATTR:
            if rng.random() < 0.08 and a not in info and (
                    a.startswith("GLOBAL_") or a.rpartition("_")[0] in info):
                spec["custom"].append(
                    {"kind": "attr", "name": a,
                     "word": rng.choice(WORDS if strange else ASCII_WORDS)})
        spec["Q"] = rng.choice([1, 2, 4])
        spec["P"] = rng.choice([1, 2, 3])
    return spec


def dim_size(spec, letter):
    return {"I": 1, "C": 3}.get(letter.upper()) or spec[letter.upper()]


def shape_of(spec, dims):
    return tuple(dim_size(spec, d) for d in dims if d.upper() != "S")


# -- values ------------------------------------------------------------------
def numbers(rng, shape, special=True):
    n = int(np.prod(shape)) if shape else 1
    kind = rng.random()
    if kind < 0.15:
        vals = [float(rng.randrange(-5, 6)) for _ in range(n)]
    elif kind < 0.25:
        vals = [0.0] * n
    else:
        vals = [rng.uniform(-1, 1) * 10 ** rng.randrange(-3, 4)
                for _ in range(n)]
    if special and rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            vals[rng.randrange(n)] = rng.choice(
                [float("nan"), float("inf"), -float("inf"), -0.0, 5e-324,
                 1.7976931348623157e308, 1e-310, 2.0 ** 53, 1 / 3])
    return np.array(vals, dtype=float).reshape(shape)


def in_form(rng, arr, form, dims):
    """The same numbers in another of the accepted forms."""
    if form == "full":
        return arr.copy()
    choices = ["full", "fortran", "strided", "strip", "float32", "int",
               "bigendian", "list", "extra"] if form == "mix" else ["list"]
    c = rng.choice(choices)
    if c == "list" and len(dims) == 1 and dims not in STD:
        c = "full"
    if arr.size == 1 and rng.random() < 0.4:
        x = float(arr.reshape(-1)[0])
        if np.isfinite(x) and abs(x) < 2 ** 53 and x == int(x):
            return rng.choice([int(x), x, np.float64(x)])
        return rng.choice([x, np.float64(x)])
    if c == "fortran":
        return np.asfortranarray(arr)
    if c == "strided":
        big = np.repeat(arr, 2, axis=0)
        return big[::2]
    if c == "bigendian":
        return arr.astype(">f8")
    if c == "extra":
        # further dimensions of size one
        if len(dims) == 1:
            return arr.reshape(rng.choice([(1, -1), (-1, 1), (1, 1, -1)]))
        return arr.reshape(arr.shape + (1,) * rng.choice([1, 2, 4]))
    if c == "strip":
        a = arr
        while a.ndim > 2 and a.shape[-1] == 1:
            a = a[..., 0]
        return a.copy()
    if c == "float32":
        with np.errstate(all="ignore"):
            return arr.astype("f4")
    if c == "int" and np.all(np.isfinite(arr)) and np.all(
            np.abs(arr) < 1e9):
        return arr.astype(rng.choice(["i4", "i8", "i4"]))
    if c == "list":
        return arr.tolist()
    return arr.copy()


def words(rng, shape):
    n = int(np.prod(shape)) if shape else 1
    pool = WORDS if rng.random() < 0.3 else ASCII_WORDS
    out = np.array([rng.choice(pool) for _ in range(n)], dtype="U")
    return out.reshape(shape)


# -- canonical contents ------------------------------------------------------
def canon_num(value, dims):
    """Numbers up to the documented freedom in shape."""
    ma = isinstance(value, np.ma.MaskedArray)
    mask = np.ma.getmaskarray(value) if ma else None
    arr = np.asarray(np.ma.getdata(value) if ma else value)
    if arr.dtype.kind not in "fiub":
        return ("bad-dtype", str(arr.dtype))
    arr = arr.astype("f8")
    if ma:
        arr = np.where(mask, 0.0, arr)
    if dims is not None and len(dims) == 1:
        arr = arr.reshape(-1)
    elif arr.ndim == 1:
        arr = arr[None]
    shape = list(arr.shape)
    while shape and shape[-1] == 1:
        shape.pop()
    arr = arr.reshape(shape)
    # NaN compares equal to NaN, -0.0 differs from 0.0
    arr = np.where(np.isnan(arr), np.nan, arr)
    res = ["num", tuple(shape), np.ascontiguousarray(arr).tobytes()]
    if ma and mask.any():
        res.append(mask.reshape(shape).tobytes())
    return tuple(res)


def canon_str(value, dims=None):
    if isinstance(value, bytes):
        value = value.decode("utf-8")
    arr = np.asarray(value)
    if arr.dtype.kind == "S":
        arr = np.char.decode(arr, "utf-8")
    if arr.dtype.kind != "U":
        return ("bad-dtype", str(arr.dtype))
    if dims is not None and len(dims.replace("S", "")) == 1:
        arr = arr.reshape(-1)
    shape = list(arr.shape)
    while shape and shape[-1] == 1:
        shape.pop()
    return ("str", tuple(shape), tuple(str(x) for x in arr.reshape(-1)))


def canon(value, typ, dims):
    if typ == "attribute":
        return ("attr", value if isinstance(value, str) else
                ("bad-type", type(value).__name__, str(value)))
    if typ == "string":
        return canon_str(value, first_dims(dims))
    return canon_num(value, first_dims(dims))


def first_dims(dims):
    return None if dims is None else dims.split(", ")[0]


def content(sofa, types):
    """{name: canonical value} of a Sofa object; types: name -> (type, dims)
    for the entries that are known to the model."""
    out = {}
    for k, v in vars(sofa).items():
        if k.startswith("_"):
            continue
        typ, dims = types.get(k, (None, None))
        out[k] = canon(v, typ, dims) if typ else guess(v)
    return out


def guess(v):
    """Canonical value of an entry of unknown type."""
    if isinstance(v, str):
        return ("attr", v)
    arr = np.asarray(v)
    if arr.dtype.kind in "US":
        return canon_str(v)
    return canon_num(v, None)


def show(c):
    if isinstance(c, tuple) and c and c[0] == "num":
        a = np.frombuffer(c[2]).reshape(c[1])
        return f"num{c[1]} {np.array2string(a, threshold=8)}" + (
            " masked" if len(c) > 3 else "")
    return repr(c)[:200]


def diff(want, got):
    """Human readable differences of two contents."""
    out = []
    for k in sorted(set(want) | set(got)):
        if k not in got:
            out.append(f"{k} missing (was {show(want[k])})")
        elif k not in want:
            out.append(f"{k} unexpected ({show(got[k])})")
        elif want[k] != got[k]:
            out.append(f"{k}: expected {show(want[k])} got {show(got[k])}")
    return out


def same(cls, want, got, what=""):
    if want != got:
        d = diff(want, got)
        raise Violation(cls, f"{what}: {len(d)} differences\n" +
                        "\n".join(d[:12]))


# -- full fingerprint of an object (for 'is unchanged') --------------------
def value_print(v):
    if isinstance(v, np.ndarray):
        m = np.ma.getmaskarray(v).tobytes() if isinstance(
            v, np.ma.MaskedArray) else b""
        d = np.ma.getdata(v)
        return (type(v).__name__, str(v.dtype), v.shape,
                repr(d.tolist()) if d.dtype.kind == "O" else
                d.tobytes(), m)
    return (type(v).__name__, repr(v))


def fingerprint(sofa, private=False):
    out = {}
    for k, v in vars(sofa).items():
        if k.startswith("_"):
            continue
        out[k] = value_print(v)
    out["<protected>"] = sofa.protected
    return out


def unchanged(cls, before, after, what=""):
    if before != after:
        ks = [k for k in sorted(set(before) | set(after))
              if before.get(k) != after.get(k)]
        raise Violation(cls, f"{what}: changed: " + "; ".join(
            f"{k}: {str(before.get(k))[:120]} -> {str(after.get(k))[:120]}"
            for k in ks[:8]))


# -- building ----------------------------------------------------------------
class Built:
    """sofa: the object; model: {name: canonical}; types: {name: (type,
    dims)}; dims: {name: dimension string as to be written}."""


def build(spec, check=True):
    import sofar
    rng = random.Random(spec["seed"])
    conv, ver = spec["conv"].split("_")
    info = conv_info(spec["conv"])
    b = Built()
    b.spec = spec
    b.sofa = s = sofar.Sofa(conv, version=ver, verify=spec.get("verify",
                                                               "auto"))
    b.types = {k: (t, d) for k, (_, _, d, t) in info.items()}
    model = {}
    for k, (default, _, dims, typ) in info.items():
        model[k] = canon(default, typ, dims)
    for k in AUTO:
        model[k] = ("attr", vars(s).get(k))

    def put(k, v):
        setattr(s, k, v)
        typ, dims = b.types[k]
        if isinstance(v, list) and typ == "double":
            v = np.atleast_2d(v)        # documented conversion of lists
        model[k] = canon(v, typ, dims)

    # numeric variables get shapes that fit together
    for k, (default, flags, dims, typ) in info.items():
        if dims is None:
            continue
        alts = dims.split(", ")
        alt = rng.choice(alts)
        if k == "ReceiverPosition" and alt == "rCM" and rng.random() < 0.5:
            alt = "rCI"
        shape = shape_of(spec, alt)
        if typ == "string":
            if not spec["strings"] or rng.random() < 0.2:
                if spec["M"] == 1 or shape == (1,):
                    pass            # keep the default [""]
                put(k, np.array([""] * shape[0])) if shape != (1,) else None
                continue
            w = words(rng, shape)
            if rng.random() < 0.3:
                w = w.reshape(shape + (1,) * rng.choice([1, 1, 2, 3]))
            if w.size == 1 and rng.random() < 0.3:
                w = str(w.reshape(-1)[0])
            put(k, w)
            continue
        if k == "Data_SamplingRate":
            arr = np.full(shape, float(rng.choice([44100, 48000, 96000,
                                                   44100.5])))
        elif k == "N":
            arr = np.cumsum(np.abs(numbers(rng, shape, False))) \
                if rng.random() < 0.7 else numbers(rng, shape, False)
            arr = np.asarray(arr, dtype=float).reshape(shape)
        elif k.startswith("Data_"):
            arr = numbers(rng, shape)
        else:
            arr = numbers(rng, shape, rng.random() < 0.3)
        put(k, in_form(rng, arr, spec["form"], alt))
    for p in spec.get("sph", []):
        if p in info:
            put(p + "_Type", rng.choice(["spherical", "Spherical"]))
            put(p + "_Units", rng.choice(
                ["degree, degree, metre", "degrees, degrees, meter",
                 "degree,degree,metre"]))
    if spec.get("unit", "metre") != "metre":
        for p in ("ListenerPosition", "ReceiverPosition"):
            if p not in spec.get("sph", []):
                put(p + "_Units", spec["unit"])
        for k in sorted(info):
            other = {"hertz": "hz", "kelvin": "kelvins",
                     "cubic metre": "cubic meter"}.get(str(info[k][0]))
            if k.endswith("_Units") and other:
                put(k, other)
    for k, w in spec.get("attrs", {}).items():
        put(k, w)
    for group in spec.get("drop", []):
        for k in group:
            s.delete(k)
            model.pop(k)
    for c in spec.get("custom", []):
        if c["kind"] == "attr":
            if c["name"] in vars(s):
                raise Discard("custom name exists")
            b.types[c["name"]] = ("attribute", None)
            s.add_attribute(c["name"], c["word"])
            model[c["name"]] = ("attr", c["word"])
            continue
        shape = shape_of(spec, c["dims"])
        b.types[c["name"]] = (c["dtype"], c["dims"])
        if c["dtype"] == "string":
            v = words(rng, shape)
            if not c["dims"].endswith("S"):
                k = c["dims"].index("S")
                v = v.reshape(shape[:k] + (1,) + shape[k:])
            elif v.ndim < 2 and rng.random() < 0.5:
                v = v.reshape(shape + (1,))
        else:
            form = spec["form"]
            if len(c["dims"]) == 1 and c["dims"] not in STD:
                form = "full"   # a list would become a (1, n) array
            v = in_form(rng, numbers(rng, shape), form, c["dims"])
        s.add_variable(c["name"], v, c["dtype"],
                       rng.choice([c["dims"], c["dims"].lower()]))
        if isinstance(v, list) and c["dtype"] == "double":
            v = np.atleast_2d(v)
        model[c["name"]] = canon(v, c["dtype"], c["dims"])
        if c.get("attr"):
            n = f"{c['name']}_{c['attr']}"
            w = c["word"] if c["attr"] != "Units" else c["word"].lower()
            s.add_attribute(n, w)
            b.types[n] = ("attribute", None)
            model[n] = ("attr", w)
    b.model = model
    if check:
        same("object-content", model, content(s, b.types),
             "the object does not hold what was assigned")
    return b


# -- what is in a file, read without sofar -----------------------------------
def raw(path):
    """Contents of a SOFA file as seen by another netCDF reader."""
    from netCDF4 import Dataset
    out = {"attrs": {}, "dims": {}, "vars": {}}
    with Dataset(path, "r") as f:
        f.set_auto_mask(False)
        for a in f.ncattrs():
            out["attrs"][a] = f.getncattr(a)
        for d, o in f.dimensions.items():
            out["dims"][d] = len(o)
        for v, o in f.variables.items():
            o.set_auto_mask(False)
            o.set_auto_chartostring(False)
            out["vars"][v] = (tuple(o.dimensions), str(o.dtype),
                              np.array(o[:]),
                              {a: o.getncattr(a) for a in o.ncattrs()
                               if a != "_Encoding"})
    return out


def raw_content(r, types):
    """The raw contents in terms of the model."""
    out = {}
    for a, v in r["attrs"].items():
        out["GLOBAL_" + a] = ("attr", v)
    for name, (dims, dt, data, attrs) in r["vars"].items():
        k = sofar_name(name)
        if dt == "|S1":
            import netCDF4
            ax = dims.index("S") if "S" in dims else data.ndim - 1
            arr = netCDF4.chartostring(np.ascontiguousarray(
                np.moveaxis(data, ax, -1)), encoding="utf-8")
            arr = np.expand_dims(arr, ax)
            out[k] = canon_str(np.asarray(arr), "".join(dims))
        else:
            out[k] = canon_num(data, "".join(dims))
        for a, v in attrs.items():
            out[f"{k}_{a}"] = ("attr", v)
    return out
