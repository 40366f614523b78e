"""C10: a failed operation leaves the object as it was, and usable."""
import copy
import os
import pickle
import random
import warnings

import numpy as np

from .. import breaks, gen, ops
from ..kernel import Violation, call, must, mute
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run takes an object through a seeded history of operations with "
        "invalid arguments, invalid contents, I/O errors and interrupts at "
        "seeded reads of the convention database; after every failure the "
        "object is compared with its former self, and operations performed "
        "on it and on a clone that saw no failure are compared; non-trivial "
        "if an operation failed")
STATE = "hash of the steps, their outcomes and the final object"
KINDS = (["set-bad"] * 3 + ["add-bad"] * 4 + ["attr-bad"] * 3 +
         ["del-bad"] * 2 + ["protect-bad", "dim-bad", "info-bad",
                            "write-bad", "equals-bad", "upgrade-bad"] +
         ["verify"] * 5 + ["add-missing"] * 4 + ["write"] * 3 +
         ["dims", "inspect", "upgrade", "add", "add", "attr", "delete",
          "edit", "edit", "copy", "add-present"])
ORIGIN = ["new", "new", "copy", "file", "file-raw", "netcdf", "pickle",
          "partial"]


class Refuses:
    """A value that cannot be converted to an array."""

    def __array__(self, *args, **kwargs):
        raise RuntimeError("no array")


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "new": gen.gen_spec(rng, small=True),
            "origin": rng.choice(ORIGIN), "breaks": [], "steps": []}
    if rng.random() < 0.4:
        plan["breaks"] = [[rng.choice(sorted(breaks.ALL) +
                                      ["no_mandatory"] * 6),
                           rng.randrange(1 << 30)]
                          for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.choice([2, 4, 6, 9])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "open": int(rng.random() < 0.1), "fault": None,
              "strict": int(rng.random() < 0.1),
              "probes": [[rng.choice(PROBES), rng.randrange(1 << 30)]
                         for _ in range(rng.choice([1, 2, 3]))]}
        if rng.random() < 0.55:
            st["fault"] = {
                "op": rng.choice(["read", "read", "read", "openr",
                                  "read|openr"]),
                "act": rng.choice(["error"] * 5 + ["sigint", "eof"]),
                "at": rng.randrange(1000), "arg": 0,
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOMEM",
                                   "ENOENT"]),
                "sticky": int(rng.random() < 0.3),
                "where": rng.choice(["/rules/", "/rules/", "/conventions/",
                                     "/db"])}
            if st["fault"]["act"] != "error":
                st["fault"]["sticky"] = 0
        plan["steps"].append(st)
    return plan


def bad_value(rng):
    return rng.choice([[[1, 2], [3]], [[1], [2, [3]]], Refuses(),
                       [Refuses(), 1]])


def names(s, cond=lambda k: True):
    return [k for k in vars(s) if not k.startswith("_") and cond(k)]


def step_fn(b, do, seed, path):
    """The operation on the object of b (nothing is done before the call)."""
    rng = random.Random(seed)
    s = b.sofa
    info = gen.conv_info(b.spec["conv"])
    if do == "set-bad":
        what = rng.choice(["unknown", "readonly", "ragged", "ragged"])
        if what == "unknown":
            n = rng.choice(["Foo", "GLOBAL_Foo", "Data.IR", "data_ir",
                            "verify", "copy", "list_dimensions", "_x"])
            return lambda: setattr(s, n, 1)
        ks = names(s)
        if what == "readonly":
            ks = [k for k in ks if "r" in (info.get(k, ("", ""))[1] or "")]
            k = rng.choice(ks or ["GLOBAL_Version"])
            return lambda: setattr(s, k, "x")
        k = rng.choice(ks or ["GLOBAL_Title"])
        v = bad_value(rng)
        return lambda: setattr(s, k, v)
    if do == "add-bad":
        n, v, t, d = "New" + rng.choice("AB"), 1.0, "double", "I"
        what = rng.choice(["exists", "dtype", "underscore", "nodims",
                           "dims", "ragged", "ragged", "ragged", "name"])
        if what == "exists":
            n = rng.choice(names(s) + ["verify", "copy"])
        elif what == "dtype":
            t = rng.choice(["float", None, 3, "DOUBLE"])
        elif what == "underscore":
            n = rng.choice(["a_b", "GLOBAL_x", "_x", "New_"])
        elif what == "nodims":
            t, d = rng.choice(["double", "string"]), None
        elif what == "dims":
            d = rng.choice([5, ["M"], b"M"])
        elif what == "ragged":
            v, d = bad_value(rng), rng.choice(["I", "MR", "W"])
            t = rng.choice(["double", "string"])
        else:
            n = rng.choice([None, 5, ("a",)])
        return lambda: s.add_variable(n, v, t, d)
    if do == "attr-bad":
        what = rng.choice(["exists", "form", "novar", "ragged", "name"])
        n, v = "GLOBAL_New" + rng.choice("AB"), "x"
        if what == "exists":
            n = rng.choice(names(s))
        elif what == "form":
            n = rng.choice(["GLOBALNew", "GLOBAL_New_x", "New", "",
                            "Data_IR_x_y"])
        elif what == "novar":
            n = rng.choice(["Absent_Units", "GLOBALx_y", "_x"])
        elif what == "ragged":
            v = bad_value(rng)
        else:
            n = rng.choice([5, ("a",)])
        return lambda: s.add_attribute(n, v)
    if do == "add-present":
        # adding an entry of the convention that is not in the object fails
        # if its value cannot be stored
        ks = [k for k in info if k not in vars(s) and "_" not in k]
        k = rng.choice(ks or ["NewA"])
        v = bad_value(rng)
        return lambda: s.add_variable(k, v, "double", "IC")
    if do == "del-bad":
        ks = [k for k in names(s) if "m" in (info.get(k, ("", ""))[1] or "")]
        k = rng.choice((ks or ["x"]) + ["Absent", "verify", None])
        return lambda: s.delete(k)
    if do == "protect-bad":
        v = rng.choice([1, 0, None, "True", np.bool_(True), []])
        return lambda: setattr(s, "protected", v)
    if do == "dim-bad":
        v = rng.choice(["X", "m", "", None, 5, ["M"]])

        def bad_dim():
            return s.get_dimension(v)
        bad_dim.may_add = True
        return bad_dim
    if do == "info-bad":
        v = rng.choice(["nonsense", "", None])
        return lambda: s.info(v)
    if do == "write-bad":
        how = rng.choice(["dir", "level", "name"])
        if how == "dir":
            return lambda: sofar.write_sofa("absent/dir/x.sofa", s)
        if how == "level":
            c = rng.choice(["x", None, 77, -3])
            return lambda: sofar.write_sofa(path, s, c)
        return lambda: sofar.write_sofa(None, s)
    if do == "equals-bad":
        o = rng.choice([None, 5, "x"])
        return lambda: sofar.equals(s, o, False)
    if do == "upgrade-bad":
        t = rng.choice(["Nonsense_1.0", "GeneralTF", 5, "GeneralTF_9.9"])
        return lambda: s.upgrade_convention(t)
    if do == "verify":
        how = rng.choice(["raise", "raise", "print", "return", "ignore"])
        mode = rng.choice(["read", "write"])

        def verify():
            return s.verify(how, mode)
        verify.may_add = how != "raise"
        return verify
    if do == "add-missing":
        a = (rng.random() < 0.8, rng.random() < 0.8, rng.random() < 0.5)

        def complete():
            return s.add_missing(*a)
        complete.args = a
        return complete
    if do == "write":
        return lambda: sofar.write_sofa(path, s, rng.choice([0, 4]))
    if do == "dims":
        d = rng.choice("MRNECIS")

        def dims():
            return s.get_dimension(d)
        dims.may_add = True
        return dims
    if do == "inspect":
        how = rng.choice(["raise", "print", "return", "ignore"])

        def inspect():
            return s.inspect(None, how)
        inspect.may_add = how != "raise"
        return inspect
    if do == "upgrade":
        return lambda: s.upgrade_convention()
    if do == "add":
        n, v = "New" + rng.choice("AB"), float(rng.randrange(9))
        d = rng.choice(["I", "MI", "W"])
        return lambda: s.add_variable(n, v, "double", d)
    if do == "attr":
        n, v = "GLOBAL_New" + rng.choice("AB"), rng.choice(gen.WORDS)
        return lambda: s.add_attribute(n, v)
    if do == "delete":
        ks = [k for k in names(s)
              if "m" not in (info.get(k, ("", ""))[1] or "")]
        k = rng.choice(ks or ["Absent"])
        return lambda: s.delete(k)
    if do == "edit":
        ks = names(s)
        k = rng.choice(ks or ["GLOBAL_Title"])
        v = vars(s).get(k)
        w = rng.choice(gen.WORDS) if isinstance(v, str) else \
            rng.choice([v, 1.5, [1, 2, 3], "text"])
        return lambda: setattr(s, k, w)
    if do == "copy":
        return s.copy
    raise AssertionError(do)


PROBES = ["verify", "verify", "add-missing", "write", "dims", "add", "attr",
          "delete", "edit", "info", "equals-attr", "set-bad", "add-bad",
          "copy", "pickle", "upgrade", "inspect", "list-dims", "readonly"]


def probe_fn(b, kind, seed, path, ref):
    s = b.sofa
    rng = random.Random(seed)
    if kind == "info":
        w = rng.choice(["all", "mandatory", "data", "optional"])
        return lambda: s.info(w)
    if kind == "equals-attr":
        return lambda: sofar.equals(s, ref, False, rng.choice(
            [None, "ATTR", "DATE", "GLOBAL"]))
    if kind == "pickle":
        return lambda: sorted(gen.fingerprint(pickle.loads(pickle.dumps(s))))
    if kind == "inspect":
        # shows what the last verification that got far enough found out if
        # the object is invalid
        return lambda: None if s.verify("return") else s.inspect()
    if kind == "list-dims":
        return lambda: s.list_dimensions
    if kind == "readonly":
        return lambda: setattr(s, "GLOBAL_Version", "x")
    return step_fn(b, kind, seed, path)


def make(env, plan):
    b = must("build", gen.build, plan["new"])
    o = plan["origin"]
    if o == "copy":
        b.sofa = must("copy", b.sofa.copy)
    elif o == "pickle":
        b.sofa = pickle.loads(pickle.dumps(b.sofa))
    elif o in ("file", "file-raw", "netcdf"):
        must("write-failed", sofar.write_sofa, "origin", b.sofa)
        if o == "netcdf":
            b.sofa = must("read-failed", sofar.read_sofa_as_netcdf, "origin")
            # such an object has no convention before the first verification
            call(b.sofa.verify, "ignore", "read")
        else:
            b.sofa = must("read-failed", sofar.read_sofa, "origin",
                          "auto" if o == "file" else False, False)
    elif o == "partial":
        # mandatory data only; the defaults of some conventions are not
        # valid without optional data, hence no verification
        conv, ver = b.spec["conv"].split("_")
        b.sofa = must("new-failed", sofar.Sofa, conv, True, ver, False)
    return b


def outcome(res, v):
    if res == "raised":
        return (res, type(v).__name__, str(v)[:300])
    if isinstance(v, sofar.Sofa):
        return (res, sorted(gen.fingerprint(v).items()))
    try:
        return (res, repr(v)[:2000])
    except AttributeError:  # contains an object without convention
        return (res, type(v).__name__)


def strictly(fn):
    """The operation with warnings turned into exceptions."""
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            return fn()
    go.may_add = getattr(fn, "may_add", False)
    go.args = getattr(fn, "args", None)
    return go


def run(env, plan):
    b = make(env, plan)
    for kind, seed in plan["breaks"]:
        breaks.apply(b, kind, random.Random(seed))
    s = b.sofa
    hist = []
    for n, st in enumerate(plan["steps"]):
        fn = step_fn(b, st["do"], st["seed"], "out")
        if st.get("strict"):
            fn = strictly(fn)
        if st["fault"]:
            ops.place(env, st["fault"], ops.dry(env, fn),
                      st["fault"]["where"])
        if st.get("open"):
            s.protected = False
        before = gen.fingerprint(s)
        c = gen.Built()
        c.spec, c.types, c.model = b.spec, b.types, b.model
        c.sofa = copy.deepcopy(s)
        gen.unchanged("deepcopy", before, gen.fingerprint(c.sofa), "clone")
        res, v = call(fn)
        nf = env.disarm()
        what = f"step {n} {st['do']} ({'I/O fault' if nf else 'no fault'})"
        if res == "raised":
            what += f" raised {type(v).__name__}: {str(v)[:100]}"
        env.ev(st["do"], res, type(v).__name__ if res == "raised" else "",
               nf)
        hist.append((st["do"], res))
        after = gen.fingerprint(s)
        if res == "raised":
            env.probe("nontrivial")
            env.probe("failure:" + type(v).__name__)
            if not before["<protected>"]:
                # failing may switch protection on, but never off
                before["<protected>"] = after["<protected>"]
            added = False
            if getattr(fn, "may_add", False) and set(after) > set(before):
                added = only_mandatory(b, before, after)
            if not added:
                gen.unchanged("object-changed", before, after, what)
            s.protected = True
            c.sofa.protected = True
            if not added:
                compare(env, b, c, st["probes"], what)
        else:
            if st.get("open"):
                s.protected = True
            if st["do"] == "add-missing":
                completed(b, fn.args, before, gen.fingerprint(s), what)
    env.state = str((hist, sorted(gen.fingerprint(s).items())))


def completed(b, args, before, after, what):
    """Exactly the missing entries were added, nothing else was changed."""
    conv = "_".join(str(getattr(b.sofa, "GLOBAL_SOFAConventions" + x))
                    for x in ("", "Version"))
    if conv not in gen.TABLES:
        return
    info = gen.conv_info(conv)
    for k, (_, flags, _, _) in info.items():
        if k not in before and args[0 if "m" in (flags or "") else 1]:
            if k not in after:
                raise Violation("not-completed", f"{what}: {k} is missing")
            after.pop(k)
    before.pop("<protected>")
    after.pop("<protected>")
    gen.unchanged("completion-changed", before, after, what)


def only_mandatory(b, before, after):
    """Verification asked not to raise may have added missing data before it
    failed."""
    info = gen.conv_info(b.spec["conv"])
    new = set(after) - set(before)
    if any("m" not in (info.get(k, ("", ""))[1] or "") for k in new):
        return False
    return all(after[k] == before[k] for k in before)


def compare(env, b, c, probes, what):
    """What was possible without the failure is possible after it."""
    for k, (kind, seed) in enumerate(probes):
        got = []
        for j, x in enumerate((b, c)):
            path = "probe.sofa"
            with env.quiet():
                if os.path.exists(path):
                    os.remove(path)
            fn = probe_fn(x, kind, seed, path, c.sofa)
            r = outcome(*call_quiet(fn))
            extra = None
            if r[0] == "ok" and kind == "write":
                with env.quiet():
                    extra = sorted(gen.raw_content(gen.raw(path),
                                                   {}).items())
            got.append((r, extra, sorted(gen.fingerprint(x.sofa).items())))
        if got[0] != got[1]:
            a, z = got
            for p, q, t in zip(a, z, ("outcome", "file", "object")):
                if p != q:
                    if isinstance(p, list) and isinstance(q, list):
                        p, q = ([y for y in p if y not in q],
                                [y for y in q if y not in p])
                    raise Violation("not-usable", (
                        f"{what}; then probe {k} {kind}: {t} {str(p)[:300]} "
                        f"instead of {str(q)[:300]}"))
        env.probe("probed")


def call_quiet(fn):
    with mute() as (out, w):
        try:
            v = fn()
            return "ok", (v, out.getvalue(), [str(x.message) for x in w])
        except Exception as e:  # noqa: B902
            return "raised", e
