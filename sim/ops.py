"""Workload steps shared by the properties."""
import os
import pathlib
import random
import shutil

import numpy as np

from . import gen, kernel
from .kernel import Violation, Discard, call, must, mute

STEMS = ["a", "b", "sub/c", "with space", "\u00fcml\u00e4ut", "UPPER",
         "x-1_2", "sub/deep/d"]
SPELL = ["plain", "suffix", "dot", "abs", "path", "abspath", "symlink",
         "double"]


def gen_env(rng, faults=True):
    return {"tz": rng.choice(["UTC", "America/New_York", "Asia/Kolkata"]),
            "clock": rng.choice([1_700_000_000, 0, 951_782_399,
                                 2_147_483_646, 1_709_164_799,
                                 rng.randrange(10**8, 4 * 10**9)]),
            "step": rng.choice([0, 1000, 10**6, 5 * 10**8, 3 * 10**9]),
            "rand": rng.randrange(1, 1 << 40),
            "dirmode": rng.choice([1, 1, 2, 3]),
            "dirseed": rng.randrange(1, 1 << 30)}


def target(stem):
    """Path (relative to the disk) at which a stem is stored."""
    return stem + ".sofa"


def spell(env, stem, how):
    """One of the ways in which a caller can name the file of a stem."""
    full = os.path.join(env.disk, stem)
    with env.quiet():
        os.makedirs(os.path.dirname(full), exist_ok=True)
    if how == "plain":
        return stem
    if how == "suffix":
        return stem + ".sofa"
    if how == "dot":
        return "./" + stem + ".sofa"
    if how == "abs":
        return full + ".sofa"
    if how == "path":
        return pathlib.Path(stem + ".sofa")
    if how == "abspath":
        return pathlib.Path(full)
    if how == "double":
        return "../disk/" + stem
    if how == "symlink":
        link = os.path.join(env.disk, stem.replace("/", "_") + "_ln.sofa")
        with env.quiet():
            if not os.path.islink(link):
                os.symlink(full + ".sofa", link)
        return link
    raise Discard(how)


def gen_write_fault(rng, benign=False):
    """A fault to meet while a file is written (position in permille)."""
    if benign:
        return {"op": rng.choice(["write", "read", "write|read"]),
                "act": rng.choice(["short", "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "sticky": 0}
    op = rng.choice(["write"] * 6 + ["openw", "trunc", "flock", "rename",
                                     "stat", "openr", "read", "meta"])
    return {"op": op, "act": "error", "at": rng.randrange(1000),
            "err": rng.choice(["EIO", "ENOSPC", "EDQUOT", "EACCES", "EROFS",
                               "ENOMEM", "EFBIG", "EMFILE"]),
            "sticky": int(rng.random() < 0.3), "arg": 0}


def mask_of(op):
    return sum(kernel.OPS[o] for o in op.split("|"))


DEFAULTS = {"verify": "auto", "issue_handling": "raise", "mode": "write",
            "info": "all", "assume_yes": False, "target": None}


def args(**kw):
    """Leave out arguments that have the documented default value."""
    return {k: v for k, v in kw.items() if v is not DEFAULTS.get(k) and
            (isinstance(v, bool) or v != DEFAULTS.get(k))}


def place(env, fault, log, sub="/disk"):
    """Arm a fault at its relative position within the recorded dry run."""
    names = fault["op"].split("|")
    n = sum(1 for e in log if e[0] in names and
            (sub in e[1] or sub in e[2]))
    if n == 0:
        return None
    nth = 1 + fault["at"] * n // 1000
    return env.arm(fault["op"], fault["act"], nth, sub,
                   fault.get("err", 0) or 0, fault.get("arg", 0),
                   fault.get("sticky", 0))


def dry(env, fn):
    """The I/O log that fn is going to produce; leaves no trace."""
    save = env.base + "/save"
    with env.quiet():
        shutil.rmtree(save, ignore_errors=True)
        shutil.copytree(env.disk, save, symlinks=True)
        save2 = None
        if os.path.isdir(os.path.join(env.base, "rundb")):
            save2 = env.base + "/savedb"
            shutil.rmtree(save2, ignore_errors=True)
            shutil.copytree(os.path.join(env.base, "rundb"), save2)
    start = env.nlog()
    ev, pr, fi = list(env.events), dict(env.probes), dict(env.fired)
    try:
        env.process(lambda: call(fn)[0])
    finally:
        log = env.log(start)
        env.events, env.probes, env.fired = ev, pr, fi
        with env.quiet():
            restore(save, env.disk)
            if save2:
                restore(save2, os.path.join(env.base, "rundb"))
    return log


def restore(src, dst):
    for x in os.listdir(dst):
        p = os.path.join(dst, x)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
    shutil.copytree(src, dst, symlinks=True, dirs_exist_ok=True)
    shutil.rmtree(src)


def read_content(env, path, types, verify="auto", cls="read-failed"):
    import sofar
    s = must(cls, sofar.read_sofa, path, verify, False)
    return gen.content(s, types), s


def raw_check(env, stem, model, types, cls="stored-content"):
    """What another netCDF reader finds in the file."""
    with env.quiet():
        try:
            r = gen.raw(os.path.join(env.disk, target(stem)))
        except OSError as e:
            raise Violation(cls, f"{stem}: not readable: {e}") from None
        except RuntimeError as e:
            raise Violation(cls, f"{stem}: not readable: {e}") from None
    gen.same(cls, model, gen.raw_content(r, types), f"file {stem}")
    return r


# -- edits of an object together with its model ------------------------------
def gen_edit(rng):
    return {"edit": rng.choice(["attr", "data", "inplace", "custom-attr",
                                "custom-var", "del-custom", "drop",
                                "meta"]),
            "seed": rng.randrange(1 << 30)}


def apply_edit(b, e):
    """Apply a valid edit to a built object and its model."""
    rng = random.Random(e["seed"])
    s, kind = b.sofa, e["edit"]
    have = [k for k in vars(s) if not k.startswith("_")]
    if kind == "attr":
        k = rng.choice([a for a in gen.FREE_ATTR if a in have] or
                       ["GLOBAL_Title"])
        w = rng.choice(gen.WORDS)
        setattr(s, k, w)
        b.model[k] = ("attr", w)
    elif kind in ("data", "inplace", "meta"):
        ks = [k for k in have if b.types.get(k, ("", ""))[0] == "double"
              and (k.startswith("Data_") != (kind == "meta"))
              and k != "Data_SamplingRate"
              and isinstance(getattr(s, k), np.ndarray)]
        if not ks:
            return
        k = rng.choice(ks)
        v = getattr(s, k)
        new = gen.numbers(rng, v.shape)
        if kind == "inplace" and v.flags.writeable and v.dtype.kind == "f" \
                and v.dtype.itemsize == 8:
            v[...] = new
        else:
            setattr(s, k, new)
            v = new
        b.model[k] = gen.canon(v, *b.types[k])
    elif kind == "custom-attr":
        n = "GLOBAL_Edit" + rng.choice("ABC")
        w = rng.choice(gen.WORDS)
        if n in have:
            setattr(s, n, w)
        else:
            s.add_attribute(n, w)
        b.types[n] = ("attribute", None)
        b.model[n] = ("attr", w)
    elif kind == "custom-var":
        n = "Edit" + rng.choice("XYZ")
        dims = rng.choice(["I", "M", "MI", "IC", "W", "MW"])
        b.spec.setdefault("W", 2)
        shape = gen.shape_of(b.spec, dims)
        v = gen.numbers(rng, shape)
        if n in have:
            s.delete(n)
            b.model.pop(n)
        s.add_variable(n, v, "double", dims)
        b.types[n] = ("double", dims)
        b.model[n] = gen.canon(v, "double", dims)
    elif kind == "del-custom":
        ks = [k for k in have if k.startswith(("GLOBAL_Edit", "Edit"))]
        if ks:
            k = rng.choice(ks)
            s.delete(k)
            b.model.pop(k)
    elif kind == "drop":
        ks = [k for k in ("GLOBAL_Comment", "GLOBAL_History",
                          "GLOBAL_References", "GLOBAL_Origin",
                          "ListenerUp", "SourceUp", "SourceModel")
              if k in have]
        if ks:
            k = rng.choice(ks)
            s.delete(k)
            b.model.pop(k)
