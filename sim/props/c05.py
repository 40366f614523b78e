"""C05: a damaged or unreadable file is reported, never misread."""
import os

from .. import gen, kernel, ops, readers
from ..kernel import Violation, call, must
import sofar

RUNS = {"quick": 2400, "thorough": 20000}
RULE = ("a run stores a file, then reads it repeatedly with all readers "
        "while it is truncated, missing, replaced by something else, or "
        "while system calls fail or transfer piecewise at seeded positions; "
        "non-trivial if a fault fired or the file was damaged")
STATE = "hash of the final contents of the simulated disk"
ASSUMPTIONS = ["flipped bytes are not injected: HDF5 has no checksums over "
               "raw data, so this cannot be detected by any reader",
               "a file that shrinks between open and read is not injected: "
               "HDF5 returns zeros"]
MUTATING = ("openw", "write", "trunc", "rename", "unlink", "mkdir", "rmdir",
            "meta")


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, small=rng.random() < 0.7, big=True),
            "stem": rng.choice(ops.STEMS), "spell": rng.choice(ops.SPELL),
            "comp": rng.choice([0, 4]), "steps": []}
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        st = {"reader": rng.choice(readers.READERS), "faults": [],
              "damage": None}
        x = rng.random()
        if x < 0.3:
            st["damage"] = rng.choice(["cut", "cut", "cut", "missing",
                                       "empty", "text", "dir", "old-write",
                                       "nosofa", "header"])
            st["at"] = rng.choice([rng.randrange(10**6), rng.randrange(2000),
                                   999999, 10**6 - 1 - rng.randrange(3000)])
        elif x < 0.85:
            where = rng.choice(["/disk"] * 4 + ["/rules/", "/conventions/"])
            benign = rng.random() < 0.25
            st["faults"].append({
                "op": rng.choice(["read"] * 5 + ["openr", "stat", "flock"]),
                "act": "error", "at": rng.choice([0, rng.randrange(1000),
                                                  rng.randrange(1000)]),
                "err": rng.choice(["EIO", "EIO", "EACCES", "ENOMEM",
                                   "EMFILE", "ESTALE"]),
                "arg": rng.randrange(1000),
                "sticky": int(rng.random() < 0.3), "where": where})
            if benign:
                st["faults"][0].update(op="read", sticky=0, act=rng.choice(
                    ["short", "eintr"]))
            elif where != "/disk" and st["faults"][0]["op"] == "stat":
                st["faults"][0]["op"] = "read"
        plan["steps"].append(st)
    return plan


def damage(path, kind, at, data):
    n = len(data)
    if kind == "cut":
        new = data[:min(n - 1, at * n // 10**6)]
    elif kind == "header":
        new = data[:8 + at % 600]
    elif kind == "empty":
        new = b""
    elif kind == "text":
        new = b"this is not a SOFA file\n" * 100
    elif kind == "old-write":
        new = data[:n // 2] + b"\0" * (n - n // 2 - 1)
    else:
        os.remove(path)
        if kind == "dir":
            os.mkdir(path)
        elif kind == "nosofa":
            from netCDF4 import Dataset
            with Dataset(path, "w", format="NETCDF4") as f:
                f.createDimension("M", 2)
                f.createVariable("Data.IR", "f8", ("M",))[:] = 1.0
        return
    put(path, new)


def put(path, data):
    """As a new file: HDF5, which leaks the handle if opening fails late,
    serves the metadata of a file (inode) that it has open from its memory."""
    with open(path + "~", "wb") as f:
        f.write(data)
    os.replace(path + "~", path)


def run(env, plan):
    b = must("build", gen.build, plan["new"])
    stem = plan["stem"]
    name = ops.spell(env, stem, plan["spell"])
    must("write-failed", sofar.write_sofa, name, b.sofa, plan["comp"])
    full = os.path.join(env.disk, ops.target(stem))
    with env.quiet():
        with open(full, "rb") as f:
            data = f.read()
    def only_open():
        from netCDF4 import Dataset
        Dataset(full).close()
    n_open = sum(1 for e in ops.dry(env, only_open) if e[0] == "read"
                 and e[1].startswith("/disk"))
    for st in plan["steps"]:
        kind = st["reader"]
        path = full if kind == "stream" else name

        def read():
            return readers.get(kind, path, b.types, full)
        armed, lib = [], False
        if st["damage"]:
            with env.quiet():
                damage(full, st["damage"], st["at"], data)
            env.note_fault("damage:" + st["damage"])
        elif st["faults"]:
            log = ops.dry(env, read)
            for f in st["faults"]:
                if ops.place(env, f, log, f["where"]) is not None:
                    armed.append(f)
                    # HDF5 itself leaks the handle if opening fails late
                    reads = sum(1 for e in log if e[0] == "read" and
                                e[1].startswith("/disk"))
                    lib |= f["where"] == "/disk" and (
                        f["op"] != "read" or
                        1 + f["at"] * reads // 1000 <= n_open)
        snap = env.snapshot()
        start = env.nlog()
        left = env.open_fds(ops.target(stem))
        res, v = call(read)
        n = env.disarm()
        env.ev("read", kind, res, n, st["damage"])
        if res == "ok":
            if st["damage"] == "nosofa":
                if kind not in ("netcdf", "stream"):
                    raise Violation("misread", f"{kind}: accepted a file "
                                    "without convention")
            elif st["damage"] and not (st["damage"] == "old-write" or
                                       v == b.model):
                raise Violation("misread", (
                    f"{kind} of a damaged file ({st['damage']}) returned "
                    "something: " + "; ".join(gen.diff(b.model, v)[:5])))
            elif not st["damage"]:
                gen.same("misread", b.model, v, f"{kind} with fault")
        else:
            if not st["damage"] and not n:
                raise Violation("read-failed", f"{kind} without fault: "
                                f"{type(v).__name__}: {v}")
            if armed and all(f["act"] in ("short", "eintr")
                             for f in armed) and not st["damage"]:
                raise Violation("read-failed", (
                    f"{kind} with piecewise transfer: "
                    f"{type(v).__name__}: {v}"))
            env.probe("error-reported")
        # tear-down of the exception must not matter: drop it
        v = None
        env.probe("handle-checked", int(not lib))
        mut = [e for e in env.log(start) if e[0] in MUTATING]
        if mut or env.snapshot() != snap:
            raise Violation("file-changed", f"{kind} changed the disk {mut}")
        left = env.open_fds(ops.target(stem)) - left
        if left > 0 and not lib:
            raise Violation("handle-leak", (
                f"{kind} ({res}) left {left} handle(s) of the file open"))
        # the cause is gone
        with env.quiet():
            if os.path.isdir(full):
                os.rmdir(full)
            put(full, data)
        res, v = call(read)
        if res != "ok":
            raise Violation("not-recovered", (
                f"{kind} after the fault is gone: {type(v).__name__}: {v}"))
        gen.same("not-recovered", b.model, v, f"{kind} after the fault")
    env.state = "".join(sorted(env.snapshot().values()))[:64]
