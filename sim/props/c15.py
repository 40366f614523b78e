"""C15: the convention used does not depend on the file system."""
import contextlib
import io
import json
import os
import random

from netCDF4 import Dataset

from .. import convdb, gen, ops
from ..kernel import Violation, call
import sofar

RUNS = {"quick": 2100, "thorough": 20000}
RULE = ("a run installs a seeded set of conventions and versions (similar "
        "names, versions beyond 9.0, standardized and deprecated) and asks "
        "for conventions, lists, files and verdicts under several directory "
        "orders, some with failing reads; non-trivial if a convention with "
        "several versions was requested")
STATE = "hash of the installed versions and all answers"
NAMES = ["General", "GeneralTF", "GeneralTF-E", "GeneralTFx", "Gen",
         "SimpleFreeFieldHRIR", "SimpleFreeFieldHRI", "FreeFieldHRIR", "A",
         "generaltf", "Sofa2", "1.0", "latest"]
VERSIONS = ["0.1", "0.2", "0.3", "0.9", "1.0", "1.1", "1.5", "2.0", "2.1",
            "3.0", "9.0", "9.9", "10.0", "10.5", "11.0", "20.0", "99.0",
            "100.0"]
BASES = ["GeneralTF_2.0", "GeneralFIR_1.0", "SimpleFreeFieldHRIR_1.0"]


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "db": [], "steps": [],
            "orders": [[rng.choice([1, 2, 3]), rng.randrange(1, 1 << 30)]
                       for _ in range(rng.choice([2, 3, 4]))]}
    names = rng.sample(NAMES, rng.choice([1, 2, 4, 6]))
    for n in names:
        for v in rng.sample(VERSIONS, rng.choice([1, 2, 3, 5, 8])):
            plan["db"].append([n, v, int(rng.random() < 0.4),
                               rng.randrange(len(BASES))])
    rng.shuffle(plan["db"])
    for _ in range(rng.choice([3, 6, 10])):
        plan["steps"].append({
            "do": rng.choice(["latest"] * 4 + ["version"] * 3 + [
                "bad-version", "bad-version", "bad-name", "bad-name", "list",
                "read", "read", "read-bad", "verify", "missing", "default"]),
            "seed": rng.randrange(1 << 30),
            "fault": [rng.choice(["read", "openr", "read|openr"]),
                      rng.choice([1, 1, 1, 2, 3]),
                      rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE"])]
            if rng.random() < 0.15 else None})
    return plan


def table(n, v, base):
    rows = []
    for r in convdb.tables()[BASES[base]][1]:
        d = {"GLOBAL:SOFAConventions": n, "GLOBAL:SOFAConventionsVersion": v,
             "GLOBAL:Title": f"{n} {v}"}.get(r[0], r[1])
        rows.append((r[0], d, *r[2:]))
        if r[0] == "GLOBAL:Title":
            rows.append(("GLOBAL:Mark", f"{n} {v}", "m", None, "attribute",
                         ""))
            rows.append(("GLOBAL:" + only(v), "x", "r", None, "attribute",
                         ""))
    return rows


def only(v):
    """An entry that is read-only in one version."""
    return "Only" + v.replace(".", "x")


def run(env, plan):
    tabs = {f"{n}_{v}": (bool(dep), table(n, v, b))
            for n, v, dep, b in plan["db"]}
    fs = convdb.files(tabs, plan["env"]["dirseed"] % 2)
    rules = convdb.rules()
    rules["GLOBAL:SOFAConventions"] = {"value": NAMES}
    fs["rules/rules.json"] = json.dumps(rules)
    env.fresh_db(fs)
    versions = {}
    for n, v, _, _ in plan["db"]:
        versions.setdefault(n, [])
        if v not in versions[n]:
            versions[n].append(v)
    answers = []
    for i, st in enumerate(plan["steps"]):
        got = []
        for k, (mode, seed) in enumerate(plan["orders"]):
            env.L.sim_dirorder(mode, seed)
            fault = st["fault"] if k == 0 else None
            if fault:
                env.arm(fault[0], "error", fault[1], "/conventions/",
                        fault[2])
            try:
                a = step(env, st["do"], random.Random(st["seed"]), versions,
                         f"step {i} ({st['do']})")
            finally:
                fired = env.disarm()
            if fired:
                # only the right answer or an exception
                env.probe("failed read")
                if a[0] == "raised":
                    continue
            got.append(a)
        for a in got[1:]:
            if a != got[0]:
                raise Violation("order-dependent", f"step {i} {st['do']}: "
                                f"{got[0]} and {a}")
        answers.append(got[:1])
    env.state = str((sorted(versions.items()), answers))


def new(*a, **k):
    s = sofar.Sofa(*a, **k)
    return [s.GLOBAL_SOFAConventions, s.GLOBAL_SOFAConventionsVersion,
            vars(s).get("GLOBAL_Title"), s.GLOBAL_Mark]


def want(n, v):
    return [n, v, f"{n} {v}", f"{n} {v}"]


def judge(env, res, v, expected, what):
    """The answer is the expected one, or a read failed."""
    if res == "raised" and env.count_armed():
        return ("raised",)
    if res == "raised":
        raise Violation("not-found", f"{what}: {type(v).__name__}: {v}")
    if v != expected:
        raise Violation("wrong-convention",
                        f"{what}: {v} instead of {expected}")
    return ("ok", v)


def refused(env, res, v, words, what):
    if res != "raised":
        raise Violation("not-refused", f"{what}: {str(v)[:200]}")
    if not env.count_armed() and not any(w in str(v) for w in words):
        raise Violation("unclear-error", f"{what}: {type(v).__name__}: {v}")
    return ("raised", type(v).__name__)


def step(env, do, rng, versions, what):
    name = rng.choice(sorted(versions))
    vs = versions[name]
    if len(vs) > 1:
        env.probe("nontrivial")
    v = rng.choice(sorted(vs))
    mand = rng.random() < 0.2
    absent = [x for x in VERSIONS if x not in vs]
    no_name = [x for x in NAMES if x not in versions]
    if do in ("latest", "default"):
        top = max(vs, key=float)
        kw = {} if do == "default" else {"version": "latest"}
        res, got = call(new, name, mand, verify=False, **kw)
        e = want(name, top)
        if mand and res == "ok":
            got[2] = e[2]
        return judge(env, res, got, e, f"{what} {name} of {sorted(vs)}")
    if do == "version":
        res, got = call(new, name, version=v, verify=False)
        return judge(env, res, got, want(name, v),
                     f"{what} {name} {v} of {sorted(vs)}")
    if do == "bad-version":
        bad = rng.choice(absent + absent + [v + "0", v.split(".")[0], "", " "
                                            + v, "newest", v + ".json"])
        if bad in vs:
            return ("skip",)
        res, got = call(new, name, version=bad, verify=False)
        return refused(env, res, got, [bad], f"{what} {name} {bad!r}")
    if do == "bad-name":
        bad = rng.choice(no_name + [name[:-1], name + "_", name + "_" + v,
                                    name.swapcase(), "*", name + "*", "",
                                    ".", "../" + name])
        if bad in versions:
            return ("skip",)
        res, got = call(new, bad, verify=False)
        return refused(env, res, got, [bad, "not found"], f"{what} {bad!r}")
    if do == "list":
        out = io.StringIO()
        def listed():
            with contextlib.redirect_stdout(out):
                sofar.list_conventions()
        res, got = call(listed)
        text = sorted(x for x in out.getvalue().split("\n")
                      if "(Version " in x)
        e = sorted(f"{n} (Version {x})" for n in versions
                   for x in versions[n])
        return judge(env, res, text, e, what)
    if do in ("read", "read-bad"):
        if do == "read-bad":
            if rng.random() < 0.5 and no_name:
                name = rng.choice(no_name)
            else:
                v = rng.choice(absent)
        make_file(env, name, v, vs)
        res, s = call(sofar.read_sofa, "f", False, False)
        if do == "read-bad":
            return refused(env, res, s, [name, v], f"{what} {name} {v}")
        if res == "raised":
            return judge(env, res, s, None, f"{what} {name} {v} of {vs}")
        got = [s.GLOBAL_SOFAConventions, s.GLOBAL_SOFAConventionsVersion,
               "Mark"]
        r = judge(env, res, got, [name, v, "Mark"], f"{what} {name} {v}")
        for x in vs:
            res, e = call(setattr, s, "GLOBAL_" + only(x), "z")
            if (res == "raised") != (x == v):
                raise Violation("wrong-convention", f"{what} {name} {v}: "
                                f"read-only entry of {x}: {res} {e}")
        if "GLOBAL_Mark" not in vars(s):
            res, x = call(s.add_missing, True, False)
            return judge(env, res, vars(s).get("GLOBAL_Mark"), f"{name} {v}",
                         f"{what} {name} {v}: missing data")
        return r
    # verification follows the version the object has
    res, s = call(sofar.Sofa, name, version=v, verify=False)
    if res == "raised":
        return judge(env, res, s, None, what)
    if do == "missing":
        s.protected = False
        del s.GLOBAL_Mark
        s.protected = True
        res, x = call(s.add_missing)
        return judge(env, res, vars(s).get("GLOBAL_Mark"), f"{name} {v}",
                     f"{what} {name} {v}: missing data")
    if rng.random() < 0.3:
        s.protected = False
        v = s.GLOBAL_SOFAConventionsVersion = rng.choice(absent)
        s.protected = True
        res, x = call(s.verify, "ignore")
        return refused(env, res, x, [v], f"{what} {name} {v}")
    res, x = call(s.verify, "return", rng.choice(["read", "write"]))
    if res == "raised":
        return judge(env, res, x, None, f"{what} {name} {v}")
    return ("ok", str(x))


def make_file(env, name, v, vs):
    """A valid file (GeneralTF) that names another convention."""
    with env.quiet():
        if os.path.exists("f.sofa"):
            os.remove("f.sofa")
        with Dataset("f.sofa", "w", format="NETCDF4") as f:
            for k, x in {"Conventions": "SOFA", "Version": "2.1",
                         "SOFAConventions": name,
                         "SOFAConventionsVersion": v, "DataType": "TF",
                         "RoomType": "free field"}.items():
                f.setncattr(k, x)
            for x in vs:
                f.setncattr(only(x), "y")
            for d, n in {"I": 1, "C": 3, "M": 2, "R": 1, "N": 4,
                         "E": 1}.items():
                f.createDimension(d, n)
            for k in ("Data.Real", "Data.Imag"):
                f.createVariable(k, "f8", ("M", "R", "N"))[:] = 1.0
