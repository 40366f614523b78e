"""The ways of reading a file, each giving {name: canonical value}."""
import numpy as np

from . import gen
from .kernel import Violation

READERS = ["read", "read-verify", "read-raw", "netcdf", "stream"]


def get(kind, name, types, full=None):
    """Read everything from the file `name`; full: name for SofaStream."""
    import sofar
    if kind == "read":
        return gen.content(sofar.read_sofa(name, "auto", False), types)
    if kind == "read-verify":
        return gen.content(sofar.read_sofa(name, True, False), types)
    if kind == "read-raw":
        return gen.content(sofar.read_sofa(name, False, False), types)
    if kind == "netcdf":
        return gen.content(sofar.read_sofa_as_netcdf(name), types)
    if kind == "stream":
        with sofar.SofaStream(full or name) as f:
            return stream_content(f, types)
    raise ValueError(kind)


def stream_content(f, names):
    """All of the given entries by way of an open stream."""
    out = {}
    for k in names:
        try:
            v = getattr(f, k)
        except AttributeError as e:
            if "is not contained in SOFA-file" in str(e):
                continue
            if "not found" in str(e) and "NetCDF: Attribute" in str(e):
                continue
            raise
        out[k] = stream_value(v, names[k])
    return out


def stream_value(v, typ):
    """Canonical value of what a stream returned for an entry."""
    if isinstance(v, str):
        return ("attr", v)
    if hasattr(v, "dimensions"):
        dims = "".join(v.dimensions)
        data = v[:]
        return stream_array(data, dims, str(v.dtype), v)
    return ("bad-type", type(v).__name__)


def stream_array(data, dims, dtype, var):
    import netCDF4
    if "S1" in dtype or getattr(np.asarray(data).dtype, "kind", "") in "SU":
        data = np.ma.getdata(data)
        if "S1" in str(data.dtype) or data.dtype.itemsize == 1:
            ax = dims.index("S") if "S" in dims else data.ndim - 1
            arr = netCDF4.chartostring(np.ascontiguousarray(
                np.moveaxis(data, ax, -1)), encoding="utf-8")
            data = np.expand_dims(np.asarray(arr), ax)
        return gen.canon_str(data, dims)
    return gen.canon_num(data, dims)


def same(cls, want, got, what):
    gen.same(cls, want, got, what)
