"""Ways to make a valid object invalid (and valid again).

Each entry takes a Built and a random generator and returns a function that
undoes the change, or None if it does not apply.  Every change is invalid
according to the fixture rules whatever the rest of the object looks like.
"""
import numpy as np

from .kernel import Violation
from . import gen


def unlocked(s, fn):
    s.protected = False
    try:
        fn()
    finally:
        s.protected = True


def _set(b, key, value):
    s = b.sofa
    if key not in vars(s):
        return None
    old = vars(s)[key]
    unlocked(s, lambda: setattr(s, key, value))
    return lambda: unlocked(s, lambda: setattr(s, key, old))


def _del(b, key):
    s = b.sofa
    if key not in vars(s):
        return None
    items = dict(vars(s))
    old = items[key]
    unlocked(s, lambda: delattr(s, key))
    return lambda: unlocked(s, lambda: setattr(s, key, old))


def attr_number(b, rng):
    return _set(b, rng.choice(["GLOBAL_Title", "GLOBAL_AuthorContact",
                               "GLOBAL_Organization",
                               "ListenerPosition_Type"]),
                rng.choice([1, 2.5]))


def no_mandatory(b, rng):
    info = gen.conv_info(b.spec["conv"])
    ks = [k for k, (_, f, _, _) in info.items() if f and "m" in f
          and not k.startswith("GLOBAL_SOFAConv")]
    return _del(b, rng.choice(ks))


def shape(b, rng):
    k = rng.choice(["ListenerPosition", "SourcePosition"])
    v = np.zeros((1, 2)) if rng.random() < 0.5 else np.zeros(
        (b.spec["M"] + 1, 3))
    return _set(b, k, v)


def data_shape(b, rng):
    ks = [k for k in ("Data_Delay",) if k in vars(b.sofa)]
    if not ks:
        return _set(b, "ReceiverPosition",
                    np.zeros((b.spec["R"] + 3, 2)))
    return _set(b, ks[0], np.zeros((b.spec["M"] + 2, b.spec["R"] + 2)))


def dtype(b, rng):
    ks = [k for k in vars(b.sofa) if b.types.get(k, ("",))[0] == "double"]
    k = rng.choice(ks)
    v = np.atleast_1d(vars(b.sofa)[k])
    return _set(b, k, rng.choice([v.astype("U"), v.astype("c16"),
                                  v.astype(object), "text"]))


def pos_type(b, rng):
    return _set(b, rng.choice(["ListenerPosition_Type",
                               "SourcePosition_Type",
                               "ReceiverPosition_Type",
                               "EmitterPosition_Type"]),
                rng.choice(["polar", "", "cartesianx", "spherical,"]))


def units(b, rng):
    return _set(b, rng.choice(["ListenerPosition_Units",
                               "SourcePosition_Units"]),
                rng.choice(["kelvin", "", "metre metre metre metre",
                            "degree, degree", "hertz, degree, metre"]))


def upper_units(b, rng):
    """Valid for reading, invalid for writing."""
    k = rng.choice(["ListenerPosition_Units", "SourcePosition_Units",
                    "ReceiverPosition_Units", "EmitterPosition_Units"])
    v = vars(b.sofa).get(k)
    return _set(b, k, v.upper() if rng.random() < .5 else v.capitalize()) \
        if isinstance(v, str) else None


def rate_units(b, rng):
    return _set(b, "Data_SamplingRate_Units", "degree")


def room(b, rng):
    return _set(b, "GLOBAL_RoomType", rng.choice(["outer space", "",
                                                  "free-field"]))


def version(b, rng):
    return _set(b, rng.choice(["GLOBAL_Version", "GLOBAL_Conventions"]),
                rng.choice(["9.9", "", "SOFAX"]))


def datatype(b, rng):
    cur = vars(b.sofa).get("GLOBAL_DataType")
    if cur is None:  # (removed by a break before)
        return None
    return _set(b, "GLOBAL_DataType",
                rng.choice([d for d in ("FIR", "TF", "SOS", "XX", "fir")
                            if d != cur]))


def convention(b, rng):
    return _set(b, rng.choice(["GLOBAL_SOFAConventions",
                               "GLOBAL_SOFAConventionsVersion"]),
                rng.choice(["Nonsense", "17.4", "0.05"]))


def orphan(b, rng):
    """An attribute whose variable is missing."""
    s = b.sofa
    n = "Orphan" + rng.choice("AB")
    if n in vars(s) or n + "_Note" in vars(s):
        return None
    s.add_variable(n, 1.0, "double", "I")
    s.add_attribute(n + "_Note", "x")
    s.delete(n)
    return lambda: s.delete(n + "_Note")


def reserved(b, rng):
    s = b.sofa
    n = rng.choice(["APIData", "PRIVATEx", "PRIVATE", "GLOBALData"])
    if n in vars(s) or n + "_Note" in vars(s):
        return None
    s.add_variable(n, 1.0, "double", "I")
    return lambda: s.delete(n)


def view_without(b, rng):
    s = b.sofa
    if "ListenerView" in vars(s) and "ListenerView_Type" in vars(s):
        f = {k: v[1] for k, v in gen.conv_info(b.spec["conv"]).items()}
        k = rng.choice(["ListenerView_Type", "ListenerView_Units"])
        if f.get(k) is None:
            return _del(b, k)
    return None


def custom_shape(b, rng):
    """A custom variable that does not fit the dimensions."""
    s = b.sofa
    n = "Misfit" + rng.choice("AB")
    if n in vars(s) or n + "_Note" in vars(s):
        return None
    s.add_variable(n, np.zeros((b.spec["M"] + 1, b.spec["R"] + 1)),
                   "double", "MR")
    return lambda: s.delete(n)


def extra_axis(b, rng):
    """More dimensions than the convention has."""
    k = rng.choice(["ListenerPosition", "SourcePosition", "ReceiverPosition",
                    "Data_Delay", "Descriptions", "ReceiverDescriptions"])
    v = vars(b.sofa).get(k)
    if v is None or b.types.get(k, ("",))[0] not in ("double", "string"):
        return None
    d = max(len(x) for x in b.types[k][1].split(", "))
    if b.types[k][0] == "string":
        v = np.atleast_1d(v)
        v = np.array([["a", "b"]]) if v.size == 1 else v
    else:
        v = np.atleast_2d(v)
    v = v.reshape(v.shape + (1,) * (d - v.ndim))
    return _set(b, k, np.stack([v] * rng.choice([2, 3]), axis=-1))


def sh_order(b, rng):
    """Spherical harmonics need a square number of receivers."""
    if b.spec["R"] in (1, 4, 9, 16):
        return None
    return _set(b, "ReceiverPosition_Type", "spherical harmonics")


ALL = {f.__name__: f for f in (
    attr_number, no_mandatory, shape, data_shape, dtype, pos_type, units,
    upper_units, rate_units, room, version, datatype, convention, orphan,
    reserved, view_without, custom_shape, sh_order, extra_axis)}
# raise already while reading (mode="read")
WRITE_ONLY = {"upper_units"}


def apply(b, name, rng):
    return ALL[name](b, rng)
