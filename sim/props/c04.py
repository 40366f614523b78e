"""C04: nothing that does not verify reaches the disk."""
import json
import os
import random

from .. import breaks, convdb, gen, kernel, ops
from ..kernel import Violation, call, must
import sofar

RUNS = {"quick": 1950, "thorough": 16000}
RULE = ("a run is a seeded history of edits, violations, repairs, "
        "verifications, writes and changes or failures of the convention "
        "database; every write is judged; non-trivial if a fault fired or a "
        "write was refused")
STATE = "hash of the final contents of the simulated disk"
MUTATING = ("openw", "write", "trunc", "rename", "unlink", "mkdir", "rmdir",
            "meta")


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "objects": [gen.gen_spec(rng, small=True)
                        for _ in range(rng.choice([1, 1, 2]))],
            "stem": rng.choice(ops.STEMS), "spell": rng.choice(ops.SPELL),
            "comp": rng.choice([0, 4]), "db": rng.random() < 0.35,
            "steps": []}
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        x = rng.random()
        st = {"obj": rng.randrange(2), "seed": rng.randrange(1 << 30)}
        if x < 0.28:
            st["do"] = "break"
            st["kind"] = rng.choice(sorted(breaks.ALL))
        elif x < 0.36:
            st["do"] = "repair"
        elif x < 0.46:
            st.update(ops.gen_edit(rng), do="edit")
        elif x < 0.58:
            st["do"] = rng.choice(["verify", "read-verify", "ignore",
                                   "inspect", "copy", "dimensions", "reread"])
        elif x < 0.68 and plan["db"]:
            st["do"] = "db"
            st["kind"] = rng.choice(["rule", "mandatory", "restore",
                                     "restore", "missing", "torn",
                                     "deprecate"])
            st["file"] = rng.choice(["rules/rules.json",
                                     "rules/unit_aliases.json",
                                     "rules/deprecations.json", "conv"])
        else:
            st["do"] = "write"
            st["faults"] = []
            if rng.random() < 0.3:
                st["faults"].append({
                    "op": rng.choice(["openr", "read", "openr|read"]),
                    "act": "error", "at": rng.randrange(1000),
                    "err": rng.choice(["EIO", "EACCES", "EMFILE",
                                       "ENOMEM"]),
                    "arg": 0, "sticky": int(rng.random() < 0.6),
                    "where": rng.choice(["/rules/", "/conventions/"])})
        plan["steps"].append(st)
    plan["steps"].append({"do": "write", "obj": 0, "faults": [], "seed": 0})
    return plan


class Database:
    """The installed conventions, which this run may change."""

    def __init__(self, env, private):
        self.env, self.good, self.kind = env, True, None
        self.files = None
        if private:
            self.files = convdb.files()
            env.fresh_db(self.files)

    def path(self, rel):
        return os.path.join(self.env.db, rel)

    def put(self, rel, text):
        with self.env.quiet():
            with open(self.path(rel), "w") as f:
                f.write(text)

    def change(self, st, conv):
        if self.files is None:
            return
        kind = st["kind"]
        if kind == "restore":
            self.env.fresh_db(self.files)
            self.good = True
            return
        rel = st["file"]
        if rel == "conv":
            rel = [f for f in self.files if f.endswith("/" + conv + ".json")][0]
        with self.env.quiet():
            if not os.path.exists(self.path("rules/rules.json")) or \
                    not self.good:
                return
        self.good = False
        if kind == "missing":
            with self.env.quiet():
                os.remove(self.path(rel))
        elif kind == "torn":
            text = self.files[rel]
            self.put(rel, text[:len(text) * (st["seed"] % 997) // 1000])
        elif kind == "rule":
            rules = json.loads(self.files["rules/rules.json"])
            rules["GLOBAL:RoomType"]["value"] = ["nowhere"]
            self.put("rules/rules.json", json.dumps(rules))
        elif kind == "mandatory":
            rel = [f for f in self.files if f.endswith("/" + conv + ".json")][0]
            d = json.loads(self.files[rel])
            d["GLOBAL:Novelty"] = {"default": "", "flags": "m",
                                   "dimensions": None, "type": "attribute",
                                   "comment": ""}
            self.put(rel, json.dumps(d))
        elif kind == "deprecate":
            d = json.loads(self.files["rules/deprecations.json"])
            d["GLOBAL:SOFAConventions"][conv.split("_")[0]] = "X"
            self.put("rules/deprecations.json", json.dumps(d))
        self.kind = kind
        self.env.probe("db-" + kind)


def run(env, plan):
    db = Database(env, plan["db"])
    objs = [must("build", gen.build, sp) for sp in plan["objects"]]
    if not objs:
        return
    undo = [[] for _ in objs]
    name = ops.spell(env, plan["stem"], plan["spell"])
    if len(plan["steps"]) % 2:
        must("write-failed", sofar.write_sofa, name, objs[0].sofa)
    written = []
    for st in plan["steps"]:
        k = st["obj"] % len(objs)
        b, do = objs[k], st["do"]
        rng = random.Random(st["seed"])
        if do == "break":
            # (adding custom entries does not need the database)
            fn = breaks.apply(b, st["kind"], rng)
            if fn:
                undo[k].append(fn)
                env.probe("break-" + st["kind"])
        elif do == "repair":
            while undo[k]:
                undo[k].pop()()
        elif do == "edit":
            if not undo[k] and db.good:
                ops.apply_edit(b, st)
                written.clear()
        elif do == "db":
            db.change(st, plan["objects"][0]["conv"])
        elif do == "verify":
            call(b.sofa.verify)
        elif do == "read-verify":
            call(b.sofa.verify, mode="read")
        elif do == "ignore":
            if not undo[k] and db.good:
                call(b.sofa.verify, "ignore")
        elif do == "inspect":
            if not undo[k] and db.good:
                call(b.sofa.inspect, None, "ignore")
        elif do == "dimensions":
            if not undo[k] and db.good:
                call(b.sofa.get_dimension, "M")
        elif do == "reread":
            # goes through the disk if the object was just written
            if not undo[k] and db.good and written and written[-1] == k:
                st_, v = call(sofar.read_sofa, ops.target(plan["stem"]),
                              "auto", False)
                if st_ == "raised":
                    raise Violation("read-failed", repr(v))
                b.sofa = v
        elif do == "copy":
            if not undo[k]:
                b.sofa = must("copy", b.sofa.copy)
        elif do == "write":
            conv_hit = db.good or (
                db.kind in ("mandatory", "deprecate") and
                b.spec["conv"] != plan["objects"][0]["conv"])
            if do == "write" and not conv_hit and db.kind in (
                    "missing", "torn", "mandatory", "deprecate"):
                # only judged for the object the change was meant for
                if k != 0:
                    continue
            if write(env, plan, b, name, bool(undo[k]) or not conv_hit, st):
                written.append(k)
    # after everything is repaired, everything can be written
    if db.files is not None:
        env.fresh_db(db.files)
    for k, b in enumerate(objs):
        while undo[k]:
            undo[k].pop()()
        must("write-after-repair", sofar.write_sofa, name, b.sofa,
             plan["comp"])
        ops.raw_check(env, plan["stem"], b.model, b.types, "content")
    env.state = "".join(sorted(env.snapshot().values()))[:64]


def write(env, plan, b, name, invalid, st):
    def fn():
        sofar.write_sofa(name, b.sofa, plan["comp"])
    armed = []
    if st["faults"]:
        log = ops.dry(env, fn)
        for f in st["faults"]:
            if ops.place(env, f, log, f["where"]) is not None:
                armed.append(f)
    snap = env.snapshot()
    before = gen.fingerprint(b.sofa)
    start = env.nlog()
    res, v = call(fn)
    n = env.disarm()
    new = [e for e in env.log(start) if e[0] in MUTATING and
           e[1].startswith("/disk")]
    env.ev("write", res, invalid, n)
    gen.unchanged("object-changed", before, gen.fingerprint(b.sofa),
                  "object after write_sofa")
    if res == "ok":
        if invalid:
            raise Violation("invalid-written", (
                "write_sofa wrote an object that does not verify"))
        if n and any(f["sticky"] for f in armed):
            raise Violation("unchecked-written", (
                "write_sofa wrote although the convention database could "
                "not be read"))
        ops.raw_check(env, plan["stem"], b.model, b.types, "content")
        return True
    env.probe("refused")
    env.probe("nontrivial")
    if not invalid and not n:
        raise Violation("valid-refused", (
            f"write_sofa refused a valid object: {type(v).__name__}: "
            f"{str(v)[:500]}"))
    if new:
        raise Violation("disk-touched", f"write_sofa raised {v!r:.200} after "
                                        f"touching the disk: {new[:5]}")
    if env.snapshot() != snap:
        raise Violation("disk-changed", "write_sofa raised after changing "
                                        "the disk")
    return False
