"""C14: time stamps are taken from the clock once, and then kept."""
import os
import pickle
import random
import re
import shutil
import time
import zoneinfo
from datetime import datetime, timedelta, timezone

from netCDF4 import Dataset

from .. import breaks, convdb, gen, ops
from ..kernel import Discard, Violation, call, must
import sofar

RUNS = {"quick": 4500, "thorough": 40000}
RULE = ("a run creates objects under seeded clocks (which advance by seeded "
        "steps with every reading, and jump) and time zones and applies a "
        "seeded history of operations to objects and files, some of which "
        "meet I/O errors; non-trivial if an operation followed a clock jump")
STATE = "hash of the dates of all objects and files"
# name (or POSIX rule) and offset in minutes (None: from the database)
ZONES = [("UTC", 0), ("America/New_York", None), ("Europe/Berlin", None),
         ("Asia/Kolkata", None), ("Australia/Lord_Howe", None),
         ("America/St_Johns", None), ("Pacific/Kiritimati", None),
         ("Africa/Casablanca", None), ("Asia/Pyongyang", None),
         ("<+1245>-12:45", 765), ("XYZ+11:30", -690), ("<-12>12", -720),
         ("Pacific/Apia", None)]
CLOCKS = [0, 1, 951_782_399, 951_868_799, 1_709_164_799, 1_709_251_200,
          1_711_846_799, 1_711_846_800, 1_730_595_599, 1_730_595_600,
          1_667_091_599, 1_667_095_200, 1_735_689_599, 1_735_689_600,
          2_147_483_647, 2_147_483_648, 4_102_444_799, 4_294_967_296,
          1_325_203_199, 1_325_242_800, 1_483_228_799]
OPS = ["verify", "verify", "info", "inspect", "copy", "pickle", "write",
       "write", "read", "read", "raw", "netcdf", "stream", "edit", "edit",
       "custom", "delete", "jump", "jump", "zone", "setdate", "missing",
       "upgrade", "unlock", "equals", "foreign", "new"]


def gen_plan(rng, tier, i):
    env = ops.gen_env(rng)
    env["tz"] = rng.choice(ZONES)[0]
    env["clock"] = clock(rng)
    env["step"] = rng.choice([0, 1, 10**6, 999_999_999, 10**9, 61 * 10**9,
                              3600 * 10**9, 86400 * 10**9])
    plan = {"env": env, "new": [], "steps": []}
    for _ in range(rng.choice([1, 2, 3])):
        plan["new"].append({
            "spec": gen.gen_spec(rng, None, small=True),
            "how": rng.choice(["build", "build", "new", "mandatory",
                               "noverify"]),
            "clock": clock(rng) if rng.random() < 0.5 else None,
            "tz": rng.choice(ZONES)[0] if rng.random() < 0.3 else None})
    if rng.random() < 0.5:
        plan["steps"].append({"do": rng.choice(["jump", "zone"]),
                              "seed": rng.randrange(1 << 30), "fault": None})
    for _ in range(rng.choice([3, 6, 10] if tier == "quick"
                              else [6, 12, 25])):
        st = {"do": rng.choice(OPS), "seed": rng.randrange(1 << 30),
              "fault": None}
        if rng.random() < 0.15:
            st["fault"] = [rng.choice(["read", "openr", "read|openr",
                                       "write", "rename"]),
                           rng.choice([1, 1, 2, 3, rng.randrange(1, 12)]), rng.choice(
                               ["EIO", "EACCES", "EMFILE", "ENOSPC"])]
        plan["steps"].append(st)
    return plan


def clock(rng):
    return rng.choice(CLOCKS) if rng.random() < 0.6 else \
        rng.randrange(0, 5 * 10**9)


def local(tz, ns):
    """The documented format of an instant, computed independently."""
    off = dict(ZONES)[tz]
    t = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(
        seconds=ns // 10**9)
    if off is None:
        t = t.astimezone(zoneinfo.ZoneInfo(tz))
    else:
        t = t + timedelta(minutes=off)
    return "%04d-%02d-%02d %02d:%02d:%02d" % (
        t.year, t.month, t.day, t.hour, t.minute, t.second)


def dates(s):
    return [vars(s).get("GLOBAL_DateCreated"),
            vars(s).get("GLOBAL_DateModified")]


class World:
    def __init__(self, env, tz):
        self.env, self.tz = env, tz
        self.objects = []       # [object, dates, label, spec]
        self.files = {}
        self.jumped = False

    def zone(self, tz):
        if os.path.exists("/usr/share/zoneinfo/" + tz) or \
                dict(ZONES)[tz] is not None:
            self.tz = os.environ["TZ"] = tz
            time.tzset()

    def new(self, n):
        env = self.env
        if n.get("tz"):
            self.zone(n["tz"])
        if n.get("clock") is not None:
            env.set_clock(n["clock"])
        spec = n["spec"]
        conv, ver = spec["conv"].split("_")
        before = env.clock()
        reads = env.L.sim_clock_reads()
        how = n["how"]
        if how == "build":
            s = must("new-failed", gen.build, spec, False).sofa
        elif how == "noverify":
            s = must("new-failed", sofar.Sofa, conv, version=ver,
                     verify=False)
        elif how == "mandatory":
            s = must("new-failed", sofar.Sofa, conv, True, ver, False)
        else:
            s = must("new-failed", sofar.Sofa, conv, False, ver)
        d = dates(s)
        k = env.L.sim_clock_reads() - reads
        ok = {local(self.tz, before + i * env._step)
              for i in range(max(k, 1))}
        what = f"created at {before / 1e9:.3f} in {self.tz}"
        for x in d:
            if not isinstance(x, str) or not re.fullmatch(
                    r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d", x):
                raise Violation("date-format", f"{what}: {x!r}")
            if x not in ok:
                raise Violation("wrong-date", f"{what}: {x}, expected "
                                f"{sorted(ok)[:3]}")
        if d[0] != d[1]:
            raise Violation("different-dates", f"{what}: {d}")
        self.objects.append([s, d, what, spec])

    def check(self, what):
        for s, d, label, _ in self.objects:
            if dates(s) != d:
                raise Violation("date-changed", f"{what}: {dates(s)} instead "
                                f"of {d} ({label})")

    def add(self, s, d, label, spec):
        if dates(s) != d:
            raise Violation("date-changed",
                            f"{label}: {dates(s)} instead of {d}")
        self.objects.append([s, list(d), label, spec])


def run(env, plan):
    w = World(env, "UTC")
    w.zone(plan["env"]["tz"])
    for n in plan["new"]:
        w.new(n)
        w.check("creating another object")
    for i, st in enumerate(plan["steps"]):
        rng = random.Random(st["seed"])
        if st["fault"]:
            op, nth, err = st["fault"]
            env.arm(op, "error", nth, "", err)
        try:
            step(env, w, st["do"], rng, f"step {i} ({st['do']})")
        finally:
            env.disarm()
        w.check(f"step {i} ({st['do']})")
        if w.jumped and st["do"] not in ("jump", "zone"):
            env.probe("nontrivial")
    with env.quiet():
        for stem in sorted(w.files):
            with Dataset(stem + ".sofa") as f:
                d = [f.getncattr("DateCreated"), f.getncattr("DateModified")]
            if d != w.files[stem]:
                raise Violation("date-changed", f"file {stem}: {d} instead "
                                f"of {w.files[stem]}")
    env.state = str(([d for _, d, _, _ in w.objects], w.files))


def step(env, w, do, rng, what):
    entry = rng.choice(w.objects)
    s, d, label, spec = entry
    if do == "verify":
        call(s.verify, rng.choice(["raise", "print", "ignore", "return"]),
             rng.choice(["write", "read"]))
    elif do == "info":
        call(s.info, rng.choice(["all", "mandatory", "optional"]))
    elif do == "inspect":
        call(s.inspect, rng.choice([None, "out.txt"]))
    elif do == "copy":
        res, c = call(s.copy)
        if res == "ok":
            w.add(c, d, "copy of object " + label, spec)
    elif do == "pickle":
        w.add(pickle.loads(pickle.dumps(s)), d, "pickle of object " + label,
              spec)
    elif do == "write":
        stem = rng.choice(["a", "b"])
        if call(sofar.write_sofa, stem, s)[0] == "ok":
            w.files[stem] = list(d)
    elif do in ("read", "raw", "netcdf", "stream", "foreign"):
        if not w.files:
            return
        stem = rng.choice(sorted(w.files))
        d = w.files[stem]
        if do == "foreign":     # another program sets the dates
            d = [rng.choice(["2012-06-01", "", "1.1.1999", "x",
                             "2999-12-31 23:59:59", "2020-02-29 24:00:00"]),
                 rng.choice(["2013-06-01 12:00:00", "yesterday"])]
            with env.quiet():
                # (HDF5 may have leaked a handle of the file)
                shutil.copy(stem + ".sofa", "foreign~")
                with Dataset("foreign~", "r+") as f:
                    f.setncattr("DateCreated", d[0])
                    f.setncattr("DateModified", d[1])
                os.replace("foreign~", stem + ".sofa")
            w.files[stem] = d
        elif do == "stream":
            res, got = call(stream_dates, stem)
            if res == "ok" and got != d:
                raise Violation("date-changed", f"{what}: {got}, not {d}")
        else:
            res, s = call(sofar.read_sofa, stem, do == "read", False) \
                if do != "netcdf" else call(sofar.read_sofa_as_netcdf, stem)
            if res == "ok":
                w.add(s, d, f"{what} of {stem}", None)
    elif do == "edit":
        keys = sorted(k for k in vars(s) if not k.startswith("_") and
                      "Date" not in k)
        k = rng.choice(keys)
        if rng.random() < 0.3:
            k = "GLOBAL_" + rng.choice(["Title", "Comment", "History"])
        v = vars(s).get(k)
        call(setattr, s, k, "text" if isinstance(v, str) or v is None else v)
    elif do == "custom":
        if rng.random() < 0.5:
            call(s.add_attribute, "GLOBAL_DateCustom", "2000-01-01")
        else:
            call(s.add_variable, "Date", 3, "double", "I")
    elif do == "delete":
        ks = sorted(k for k in vars(s) if not k.startswith("_") and
                    k not in ("GLOBAL_DateCreated", "GLOBAL_DateModified"))
        if bool(vars(s).get("_protected")):
            call(s.delete, rng.choice(ks))
    elif do == "jump":
        env.set_clock(clock(rng))
        w.jumped = True
    elif do == "zone":
        w.zone(rng.choice(ZONES)[0])
        w.jumped = True
    elif do == "setdate":
        for k, name in enumerate(("GLOBAL_DateCreated",
                                  "GLOBAL_DateModified")):
            if rng.random() < 0.6:
                v = f"20{rng.randrange(10, 99)}-01-0{1 + k} 10:00:00"
                if call(setattr, s, name, v)[0] == "ok":
                    d[k] = v
    elif do == "missing":
        call(s.add_missing, rng.random() < 0.7, rng.random() < 0.7)
    elif do == "upgrade":
        res, t = call(s.upgrade_convention)
        if res == "ok" and t:
            call(s.upgrade_convention, rng.choice(t), rng.choice(
                ["auto", True, False]))
    elif do == "unlock":
        s.protected = rng.random() < 0.5
    elif do == "equals":
        o = rng.choice(w.objects)
        call(sofar.equals, s, o[0], False, rng.choice([None, "DATE"]))
    elif do == "new":
        # an I/O error may prevent it
        if env.armed:
            return
        w.new({"spec": gen.gen_spec(rng, None, small=True),
               "how": rng.choice(["new", "mandatory", "noverify"])})


def stream_dates(stem):
    with sofar.SofaStream(stem + ".sofa") as f:
        return [f.GLOBAL_DateCreated, f.GLOBAL_DateModified]
