"""Which entries of a SOFA object violate its convention, the verification
rules, or the naming scheme of AES69?  Written from the documentation, it
shares no code with sofar and looks at plain values only."""
import numpy as np

COORDINATES = ("cartesian", "spherical", "spherical harmonics")
EXACT = ("GLOBAL_DataType", "GLOBAL_SOFAConventions")
FIXED = {"I": 1, "C": 3}


def norm(name):
    return name.replace(":", "_").replace(".", "_")


def wrong_type(value, typ):
    if typ == "attribute":
        return not isinstance(value, str)
    if typ == "string":
        if isinstance(value, str):
            return False
        return not (isinstance(value, np.ndarray) and value.dtype.kind == "U")
    if isinstance(value, (bool, np.bool_)):
        return True
    if isinstance(value, (int, float)):
        return False
    return not (isinstance(value, (np.ndarray, np.number)) and
                value.dtype.kind in "if")


def bad_name(k, typ, entries):
    """What is wrong with a name, if anything."""
    out = []
    if typ == "attribute":
        var, sep, _ = k.rpartition("_")
        if not sep:
            out.append("form")
        elif not k.startswith("GLOBAL_") and var not in entries:
            out.append("orphan")
    elif "_" in k.replace("Data_", ""):
        out.append("form")
    if k.startswith(("PRIVATE", "API")):
        out.append("reserved")
    elif k.startswith("GLOBAL") and (typ != "attribute" or
                                     not k.startswith("GLOBAL_")):
        out.append("reserved")
    return out


def shape(value, typ, ndim):
    """Size along ndim axes; None if further axes are used."""
    if typ == "string":
        s = (1,) if isinstance(value, str) else value.shape
    else:
        a = np.asarray(value)
        if ndim == 1:
            return (a.size,)
        # a list of numbers is a row
        s = (1,) + a.shape if a.ndim == 1 else a.shape
    s += (1,) * (ndim - len(s))
    return None if any(x != 1 for x in s[ndim:]) else s[:ndim]


def raw_shape(value, typ, ndim):
    s = shape(value, typ, 9)
    return s[:ndim] if s else np.asarray(value).shape[:ndim]


def sizes(entries, defs):
    """Possible sizes of all dimensions: {letter: {size: defining entries}}"""
    out = {d: {n: set()} for d, n in FIXED.items()}
    for k, value in entries.items():
        typ, dims = defs[k]
        if dims is None:
            continue
        first = dims.split(", ")[0]
        for d, n in zip(first, raw_shape(value, typ, len(first))
                        if len(first) > 1 else (np.asarray(value).size,)):
            if d.islower():
                out.setdefault(d.upper(), {}).setdefault(n, set()).add(k)
    return out


def fits(value, typ, dims, size):
    for alt in dims.split(", "):
        s = shape(value, typ, len(alt))
        if s is not None and all(
                n == (1 if d.upper() == "S" else size[d.upper()])
                for d, n in zip(alt, s)):
            return True
    return False


def allowed(key, value, ref, aliases):
    if ref is None or value in ref:
        return True
    if key in EXACT:
        return False
    if value.lower() in ref:
        return True
    if not key.endswith("Units"):
        return False

    def split(x):
        return [u[1:] if i and u.startswith(" ") else u
                for i, u in enumerate(x.split(","))]
    have, want = split(value.lower()), split(ref[0])
    return len(have) == len(want) and all(
        aliases.get(h) == w for h, w in zip(have, want))


class Result:
    def __init__(self):
        self.errors = []        # (class, keys of which one must be named)
        self.warnings = []
        self.early = False
        self.missing = []

    def error(self, cls, *keys):
        self.errors.append((cls, tuple(sorted(keys))))

    def classes(self):
        return sorted({c for c, _ in self.errors})


def verify(entries, table, custom, rules, aliases, deprecated, mode, adds):
    """
    entries: {name: value}; table: {name: (type, dimensions, mandatory,
    default)}; custom: {name: (type, dimensions)}; adds: mandatory entries are
    added instead of being reported.
    """
    r = Result()
    entries = dict(entries)
    r.missing = [k for k, v in table.items() if v[2] and k not in entries]
    if not adds:
        for k in r.missing:
            r.error("missing", k)
    elif r.missing:
        r.warnings.append("missing")
    defs = {k: v for k, v in custom.items()}
    defs.update({k: v[:2] for k, v in table.items()})
    for k, v in entries.items():
        if wrong_type(v, defs[k][0]):
            r.error("type", k)
    if r.errors:
        r.early = True
        return r

    for k in r.missing:
        entries[k] = np.asarray(table[k][3]) if isinstance(
            table[k][3], list) else table[k][3]

    # names
    for k in entries:
        for cls in bad_name(k, defs[k][0], entries):
            r.error(cls, k)
    plain = {k[7:] if k.startswith("GLOBAL_") else k for k in table}
    for k in entries:
        if k not in table and (k[7:] if k.startswith("GLOBAL_") else k) \
                in plain:
            r.error("normative", k)

    # shapes
    size = sizes(entries, defs)
    conflicts = {d: v for d, v in size.items() if len(v) > 1}
    one = {d: next(iter(v)) for d, v in size.items()}
    for d, v in conflicts.items():
        r.error("shape", *set().union(*v.values()))
    for k, v in entries.items():
        typ, dims = defs[k]
        if dims is None:
            continue
        if any(d.upper() in conflicts for d in dims if d not in ", "):
            # depends on which of the sizes is taken
            continue
        if not fits(v, typ, dims, one):
            r.error("shape", k)

    # rules
    for key, rule in rules.items():
        k = norm(key)
        if k not in entries:
            continue
        v = entries[k]
        if not allowed(k, v, rule["value"], aliases):
            r.error("value", k)
        for dep in rule.get("general", ()):
            if norm(dep) not in entries:
                r.error("general", norm(dep))
        specific = rule.get("specific", {})
        if not specific:
            continue
        if v not in specific and k not in EXACT:
            v = v.lower()
        for dep, ref in specific.get(v, {}).items():
            if dep == "_dimensions":
                for d, want in ref.items():
                    have = size[d]
                    if not set(have) & set(want["value"]):
                        r.error("size", k)
                continue
            dep = norm(dep)
            if dep not in entries:
                r.error("specific", dep)
            elif not allowed(dep, entries[dep], ref, aliases):
                r.error("specific", dep)
    if mode == "write":
        for k, v in entries.items():
            if k.endswith("_Units") and v != v.lower():
                r.error("upper", k)
    name = entries["GLOBAL_SOFAConventions"]
    if name in deprecated:
        if mode == "write":
            r.error("deprecated", "GLOBAL_SOFAConventions")
        else:
            r.warnings.append("deprecated")
    if float(entries["GLOBAL_SOFAConventionsVersion"]) < 1:
        r.warnings.append("preliminary")
    return r
