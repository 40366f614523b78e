"""C24: outdated data is recognised, and the ways to upgrade it are told."""
import copy
import json
import os
import pickle
import random
import re

from .. import convdb, gen, ops
from ..kernel import Violation, call, must, mute
from . import c10, c21
import sofar

RUNS = {"quick": 2500, "thorough": 50000}
RULE = ("a run takes objects through a seeded history while conventions are "
        "added and removed, upgrade rules and deprecations change, and "
        "reading them fails at times; after each step the object is asked "
        "for upgrades, upgraded and written, and the answers are compared "
        "with the installed rules; non-trivial if a question was answered")
STATE = "hash of the answers"
KINDS = ["rules", "rules", "rules", "deprecate", "deprecate", "conventions",
         "conventions", "conventions", "edit", "copy", "file", "new"]
ASK = ["list", "list", "list", "bad", "bad", "to", "to", "write", "write"]
NONE = {"move": {}, "remove": [], "message": None}


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng),
            "new": gen.gen_spec(rng, convs=sorted(gen.TABLES), small=True,
                                custom=False),
            "origin": rng.choice(["new", "new", "copy", "pickle"]),
            "steps": []}
    for _ in range(rng.choice([1, 2, 4, 6] if tier == "quick"
                              else [3, 8, 16])):
        st = {"do": rng.choice(KINDS), "seed": rng.randrange(1 << 30),
              "ask": [rng.choice(ASK) for _ in range(rng.choice(
                  [0, 1, 2, 3]))], "fault": None}
        if rng.random() < 0.25:
            st["fault"] = {
                "op": rng.choice(["read", "openr", "read|openr"]),
                "act": rng.choice(["error"] * 4 + ["sigint", "short", "eof",
                                                   "eintr"]),
                "at": rng.randrange(1000), "arg": rng.randrange(1000),
                "err": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"]),
                "sticky": 0,
                "where": rng.choice(["/rules/", "/conventions/"])}
        plan["steps"].append(st)
    plan["steps"][-1]["ask"] = plan["steps"][-1]["ask"] or ["list", "write"]
    return plan


class World(c21.World):
    def __init__(self, env):
        super().__init__(env)
        self.up = convdb.upgrades()

    def install(self):
        """Write what changed."""
        put = {"rules/upgrade.json": self.up,
               "rules/deprecations.json": self.deps}
        want = set()
        for nv, (dep, rows) in self.tabs.items():
            rel = "conventions/" + "deprecated/" * dep + nv + ".json"
            put[rel] = convdb.json_dict(rows)
            want.add(rel)
        with self.env.quiet():
            for sub in ("conventions", "conventions/deprecated"):
                d = os.path.join(self.env.db, sub)
                for f in os.listdir(d):
                    if f.endswith(".json") and f"{sub}/{f}" not in want:
                        os.remove(os.path.join(d, f))
            for rel, x in put.items():
                with open(os.path.join(self.env.db, rel), "w") as f:
                    json.dump(x, f)


def current(s):
    return tuple(str(vars(s).get("GLOBAL_SOFAConventions" + x))
                 for x in ("", "Version"))


# -- steps ------------------------------------------------------------------
def step(w, b, st):
    rng = random.Random(st["seed"])
    do = st["do"]
    name, ver = current(b.sofa)
    names = [name] * 3 + sorted({x.split("_")[0] for x in w.tabs})
    if do == "rules":
        n = rng.choice(names)
        u = w.up.setdefault(n, {"from_to": []})
        kind = rng.choice(["add", "add", "version", "target", "less", "less",
                           "drop"])
        known = {v for f in u["from_to"] for v in f[0]}
        new = [v for v in {ver, "0.1", "0.5", "1.5", "3.0"} | {
            x.split("_")[1] for x in w.tabs if x.startswith(n + "_")}
            if v not in known]
        new.sort()
        pool = sorted(w.tabs) * 2 + ["Missing_1.0", n + "_0.7"]
        if kind == "add" and new:
            k = rng.randrange(len(u["from_to"]) + 1)
            rid = f"R{st['seed']}"
            u["from_to"].insert(k, [
                rng.sample(new, min(len(new), rng.choice([1, 1, 2, 3]))),
                rng.sample(pool, rng.choice([1, 1, 2, 4])), rid])
            u["from_to"][k][1] = sorted(set(u["from_to"][k][1]))
            u[rid] = dict(NONE, message=rng.choice([None, "Read this"]))
        elif kind == "version" and new and u["from_to"]:
            rng.choice(u["from_to"])[0].append(rng.choice(new))
        elif kind == "target" and u["from_to"]:
            f = rng.choice(u["from_to"])
            f[1] = [x for x in pool[:len(w.tabs)] if x in f[1]] + \
                [rng.choice([x for x in pool if x not in f[1]])]
        elif kind == "less" and u["from_to"]:
            f = rng.choice(u["from_to"])
            i = rng.choice([0, 0, 1])
            if len(f[i]) > 1:
                f[i].pop(rng.randrange(len(f[i])))
            else:
                u["from_to"].remove(f)
        elif kind == "drop":
            del w.up[n]
    elif do == "deprecate":
        d = w.deps["GLOBAL:SOFAConventions"]
        n = rng.choice(names + [name[:-1], name + "X"])
        if n in d:
            del d[n]
        else:
            d[n] = "GeneralTF"
    elif do == "conventions":
        nv = rng.choice([x for x in sorted(w.tabs)
                         if x.startswith(name + "_")] * 2 + sorted(w.tabs))
        if rng.random() < 0.4 and nv != "_".join((name, ver)):
            del w.tabs[nv]
        else:
            dep, rows = w.tabs[nv]
            n = nv.split("_")[0] + rng.choice(["", "", "X"])
            v = rng.choice(["0.1", "0.9", "1.2", "2.5", "3.0", "11.0"])
            w.tabs.setdefault(f"{n}_{v}", (rng.random() < 0.4, [
                (r[0], {"GLOBAL:SOFAConventions": n,
                        "GLOBAL:SOFAConventionsVersion": v}.get(r[0], r[1]),
                 *r[2:]) for r in rows]))
    elif do == "edit":
        call(setattr, b.sofa, rng.choice([
            "GLOBAL_Title", "GLOBAL_RoomType", "GLOBAL_License"]),
            rng.choice(["x", "reverberant", "deprecated_1.0"]))
        if rng.random() < 0.3:
            call(b.sofa.delete, "GLOBAL_Origin")
    elif do == "copy":
        b.sofa = rng.choice([b.sofa.copy, lambda: pickle.loads(
            pickle.dumps(b.sofa))])()
    elif do == "file":
        if call(sofar.write_sofa, "f", b.sofa)[0] == "ok":
            b.sofa = must("read-failed", sofar.read_sofa, "f", False, False)
    elif do == "new":
        nv = rng.choice(sorted(w.tabs)).split("_")
        b.sofa = must("new-failed", sofar.Sofa, nv[0],
                      version=rng.choice([nv[1], "latest"]), verify=False)
    w.install()


# -- questions --------------------------------------------------------------
def expected(w, s):
    """("targets", list), ("no-rules", []), or ("current", [])"""
    name, ver = current(s)
    rules = w.up.get(name, {"from_to": []})["from_to"]
    for vs, ts, _ in rules:
        if ver in vs:
            return "targets", ts
    if name in w.deps["GLOBAL:SOFAConventions"]:
        return "no-rules", []
    return "current", []


def complete(w, entries, name, ver):
    """All data that the rules move or remove (C18 judges that)."""
    for vs, ts, rid in w.up[name]["from_to"]:
        if ver in vs:
            rule = w.up[name][rid]
            return all(gen.sofar_name(k) in entries for k in
                       list(rule["move"]) + rule["remove"])
    return True


def ask(w, b, q, rng, what, fault=None):
    s = b.sofa
    if q == "write":
        return None if fault else write(w, s, what)
    kind, targets = expected(w, s)
    t = None
    if q == "bad":
        t = rng.choice(["nonsense", "", "_", current(s)[0],
                        "_".join(current(s)), "GeneralTF_2.0"] +
                       [x.split("_")[0] for x in targets] +
                       [y for u in w.up.values() for f in u["from_to"]
                        for y in f[1]])
        if t in targets:
            return None
    elif q == "to":
        if not targets:
            return None
        t = rng.choice(targets)
        if rng.random() < 0.6:      # go on with the old object
            s = copy.deepcopy(s)
    before = gen.fingerprint(s)
    old = current(s)

    def fn():
        with mute() as (out, _):
            return s.upgrade_convention(t, False), out.getvalue()
    if fault:
        with w.env.quiet():
            other = copy.deepcopy(s)
        ops.place(w.env, fault, ops.dry(
            w.env, lambda: other.upgrade_convention(t, False)),
            fault["where"])
    res, v = call(fn)
    n = w.env.disarm()
    w.env.ev(q, res, n)
    what = f"{what}: {q} {t} of {current(s)}"
    after = gen.fingerprint(s)
    if q != "to" or res == "raised":
        gen.unchanged("object-changed", before, after, what)
    if res == "raised" and n:
        w.env.probe("error-reported")
        return None
    if q == "to":
        if t not in w.tabs:
            if res != "raised":
                raise Violation("not-installed", f"{what}: done, but it is "
                                "not installed")
            return None
        if res == "raised":
            if not complete(w, before, *old):
                return None
            raise Violation("not-upgraded", f"{what}: {type(v).__name__}: "
                            f"{v!s:.300}")
        if "_".join(current(s)) != t:
            raise Violation("not-upgraded", f"{what}: {current(s)}")
        w.env.probe("upgraded")
        return t
    if res == "raised":
        raise Violation("crash", f"{what}: {type(v).__name__}: {v!s:.300}")
    value, text = v
    lines = [(x[1], x[2]) for x in re.finditer(r"^- (\S+) v(\S+)$", text,
                                               re.M)]
    told = [x for x, y in (("targets", "can be upgraded"),
                           ("no-rules", "missing upgrade rules"),
                           ("current", "up to date")) if y in text]
    if told != [kind] or not all(x in text for x in current(s)):
        raise Violation("told", f"{what}: {text!r}, not {kind}")
    if lines != [tuple(x.split("_")) for x in targets]:
        raise Violation("told", f"{what}: {lines}, not {targets}")
    if t is None:
        if value is None or list(value) != targets:
            raise Violation("returned", f"{what}: {value!r}, not {targets}")
    elif kind == "targets" and "invalid" not in text:
        raise Violation("told", f"{what}: not told that it is invalid")
    w.env.probe("nontrivial")
    w.env.probe(kind)
    return kind


def write(w, s, what):
    name, ver = current(s)

    def fn():
        with mute() as (_, found):
            sofar.write_sofa("w", s)
            return [str(x.message) for x in found]
    res, v = call(fn)
    if res == "raised":
        return None
    newest = max(float(x.split("_")[1]) for x in w.tabs
                 if x.split("_")[0] == name)
    have = [x for x in v if "outdated" in x]
    if len(have) != (float(ver) < newest) or (have and ver not in have[0]):
        raise Violation("warned", f"{what}: writing {name} {ver} (newest "
                        f"{newest}) warned {have}")
    w.env.probe("nontrivial")
    w.env.probe("warned" if have else "not-warned")
    return bool(have)


def run(env, plan):
    w = World(env)
    env.fresh_db(convdb.files())
    b = c10.make(env, dict(plan, new=dict(plan["new"], verify=False),
                           breaks=[]))
    states = []
    for n, st in enumerate(plan["steps"]):
        step(w, b, st)
        rng = random.Random(st["seed"] + 1)
        for q in st["ask"]:
            state = rng.getstate()
            if st["fault"]:
                ask(w, b, q, rng, f"step {n} ({st['do']}) with fault",
                    st["fault"])
                rng.setstate(state)
            states.append(ask(w, b, q, rng, f"step {n} ({st['do']})"))
    env.state = str(states)
