"""C25: conventions that differ between the two platforms are told."""
import contextlib
import hashlib
import io
import json
import os
import random
import re

from .. import convdb, ops, site
from ..kernel import Violation, call
from sofar import update_conventions as module
import sofar  # noqa: F401
import sys

RUNS = {"quick": 2400, "thorough": 20000}
RULE = ("a run compares the conventions of two simulated platforms, whose "
        "seeded contents change in between, over the real requests library "
        "while network faults and I/O errors strike at seeded positions; "
        "non-trivial if the platforms differ or a fault fired")
STATE = "hash of what was offered and of all reports"
BRANCHES = ["master", "development"]
check_congruency = sys.modules["sofar.update_conventions"]._check_congruency
EXTRA = ["General_1.0.csv", "General_0.4.csv", "GeneralString_0.2.csv",
         "GeneralString_1.0.csv"]


def gen_changes(rng):
    out = site.gen_changes(rng, rng.choice([0, 1, 2, 4]))
    # several conventions are missing, at times next to each other
    at = rng.randrange(1000)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        out.append(["missing", at])
        at = at + rng.randrange(60) if rng.random() < 0.7 \
            else rng.randrange(1000)
    return out


def gen_plan(rng, tier, i):
    plan = {"env": ops.gen_env(rng), "style": rng.randrange(1 << 30),
            "few": rng.choice([1, 2, 3, 5, 8, 100]), "calls": []}
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"common": site.gen_changes(rng, rng.choice([0, 0, 1, 2])),
             "org": gen_changes(rng) if rng.random() < 0.6 else [],
             "toolbox": [gen_changes(rng) if rng.random() < 0.6 else []
                         for _ in BRANCHES],
             "extra": rng.randrange(1 << 30) if rng.random() < 0.6 else 0,
             "branch": rng.choice([None, None, 0, 1, 1]),
             "style": rng.randrange(1 << 30),
             "save": rng.choice(["no", "no", "yes", "yes", "absent"])
             if rng.random() < 0.95 else "yes", "net": [], "io": None}
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            kind = rng.choice(site.FATAL + site.BENIGN * 3 + ["sigint"])
            at = rng.choice([0, rng.randrange(1000), rng.randrange(1000),
                             999])
            c["net"].append([at, kind, int(rng.random() < 0.15 and kind
                                           not in ("loop", "redirect"))])
        if rng.random() < 0.2:
            c["io"] = {"op": rng.choice(["write", "openw", "write|openw"]),
                       "act": "error", "at": rng.randrange(1000), "arg": 0,
                       "err": rng.choice(["ENOSPC", "EIO", "EACCES"]),
                       "sticky": 0}
        if rng.random() < 0.06:
            c["nothing"] = rng.randrange(2)
        plan["calls"].append(c)
    return plan


def evolve(tabs, changes):
    tabs = site.evolve(tabs, [c for c in changes if c[0] != "missing"])
    for kind, at in [c for c in changes if c[0] == "missing"]:
        if len(tabs) > 1:
            tabs.pop(sorted(tabs)[at % 1000 * len(tabs) // 1000])
    return tabs


def contents(tabs, style):
    """{file name: bytes} of the standardized conventions"""
    rng = random.Random(style)
    out = {}
    for name in sorted(tabs):
        dep, rows = tabs[name]
        if not dep:
            out[name + ".csv"] = convdb.csv_text(
                rows, rng.random() < 0.4, rng.choice([0, 0, 1, 2, 5])).encode(
                    "windows-1252")
    return out


class Platforms(site.Site):
    """www.sofaconventions.org and github.com"""

    def offer(self, org, toolbox, style):
        self.org, self.toolbox, self.style = org, toolbox, style
        self.files = {(False, k): v for k, v in org.items()}
        if style % 2:
            self.files[True, "SimpleFreeFieldHRIR_0.3.csv"] = b"old"

    def wanted(self):
        return [0] * 2 * max(1, min(len(self.org), len(self.toolbox[0])))

    def answer(self, path):
        if path.startswith("/moved"):
            path = path[6:]
        own = "/sofacoustics/SOFAtoolbox/"
        if not path.startswith(own):
            return super().answer(path)
        html = {"Content-Type": "text/html; charset=utf-8"}
        for b, files in zip(BRANCHES, self.toolbox):
            if path == f"{own}tree/{b}/SOFAtoolbox/conventions/":
                return 200, self.page(files), html
            raw = f"{own}{b}/SOFAtoolbox/conventions/"
            if path.startswith(raw) and path[len(raw):] in files:
                return 200, files[path[len(raw):]], {
                    "Content-Type": "text/plain"}
        self.env.ev("not found", path)
        return 404, b"404: Not Found", html

    def page(self, files):
        names = list(files) + ["readme.txt", "spatial.csv.m", "xcsv"]
        if self.style % 3 == 0:
            random.Random(self.style).shuffle(names)
        else:
            names.sort()
        items = [{"name": n, "path": "SOFAtoolbox/conventions/" + n,
                  "contentType": "file"} for n in ["deprecated"] + names]
        items[0]["contentType"] = "directory"
        return ("<html><body><script>" + json.dumps(
            {"payload": {"tree": {"items": items}}},
            separators=(",", ":")) + "</script></body></html>").encode()


def run(env, plan):
    srv = Platforms(env, plan["style"])
    save = os.path.join(env.disk, "diverging")
    seen = {}
    states = []
    for n, c in enumerate(plan["calls"]):
        tabs = convdb.tables()
        keep = sorted(k for k in tabs if not tabs[k][0])
        random.Random(plan["style"]).shuffle(keep)
        tabs = {k: tabs[k] for k in sorted(keep[:plan["few"]])}
        tabs = site.evolve(tabs, c["common"])
        org = contents(evolve(tabs, c["org"]), c["style"])
        toolbox = [contents(evolve(tabs, ch), c["style"] + 1 + k)
                   for k, ch in enumerate(c["toolbox"])]
        if c["extra"]:
            rng = random.Random(c["extra"])
            for files in [org] + toolbox:
                for x in EXTRA:
                    if rng.random() < 0.4:
                        files[x] = rng.choice([b"a", b"b"])
        if c.get("nothing") is not None:
            for files in ([org] if c["nothing"] else toolbox):
                files.clear()
        srv.offer(org, toolbox, c["style"])
        states.append(one(env, srv, c, org, toolbox[c["branch"] or 0], save,
                          seen, f"call {n}"))
    env.state = hashlib.sha256(repr(states).encode()).hexdigest()[:16]


def expected(org, toolbox):
    a, b = ({k: v for k, v in x.items() if not k.startswith(site.EXCLUDED)}
            for x in (org, toolbox))
    out = {}
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out[k] = "is missing in SOFAtoolbox"
        elif k not in a:
            out[k] = "is missing on sofaconventions.org"
        elif site.clean(a[k]) != site.clean(b[k]):
            out[k] = "differs across platforms"
    return out


def one(env, srv, c, org, toolbox, save, seen, what):
    want = expected(org, toolbox)
    if want:
        env.probe("nontrivial")
    if c["save"] == "yes":
        with env.quiet():
            os.makedirs(save, exist_ok=True)
    kw = {} if c["branch"] is None else {"branch": BRANCHES[c["branch"]]}
    if c["save"] != "no":
        kw["save_dir"] = save if c["save"] == "yes" else save + "2"

    def check():
        srv.plan(c["net"])
        text = io.StringIO()

        def fn():
            with contextlib.redirect_stdout(text):
                check_congruency(**kw)
        return (*call(fn), text.getvalue())

    if c["io"]:
        ops.place(env, c["io"], ops.dry(env, check), "/diverging")
    start = env.nlog()
    before = env.snapshot()
    db = site.db_bytes(env, env.db)
    res, v, text = check()
    nio = env.disarm()
    after = env.snapshot()
    changed = {k for k in set(before) | set(after)
               if before.get(k) != after.get(k)}
    fatal = srv.fatal
    if fatal or nio:
        env.probe("nontrivial")
    env.ev(res, str(v)[:100].replace(env.base, ""), text, len(srv.requests))
    desc = f"{what}: {res} {type(v).__name__ if v is not None else ''} " \
        f"{str(v)[:200]} {text!r:.600}"
    if site.db_bytes(env, env.db) != db or site.mutations(
            env, env.db, start):
        raise Violation("conventions-changed", desc)
    differing = [k for k in want if want[k].startswith("differs")]
    files = {f"diverging/{d}/{k}": x[k] for k in differing
             for d, x in (("sofaconventions", org), ("sofatoolbox", toolbox))}
    stray = {k for k in changed if k not in files and after.get(k) != "dir"}
    if c["save"] != "yes":
        stray = changed
    if stray:
        raise Violation("stray-files", f"{desc}: {sorted(stray)[:4]}")
    if c["save"] == "absent":
        if res != "raised" or not isinstance(v, ValueError):
            raise Violation("missing-directory", desc)
        return "no directory"
    if fatal or nio:
        if res != "raised":
            raise Violation("failure-hidden", f"{desc}: {srv.faults}")
        if text:
            raise Violation("report-despite-failure", desc)
        return "failed"
    if not org or not toolbox:
        if res != "raised" or not isinstance(v, ValueError):
            raise Violation("failure-hidden", f"{desc}: empty platform")
        return "empty"
    if res != "ok":
        raise Violation("not-compared", desc)
    got = {}
    for line in text.split("\n"):
        m = re.match(r"- (\S+\.csv) (.*)", line)
        if m:
            if m[1] in got:
                raise Violation("report", f"{desc}: {m[1]} told twice")
            got[m[1]] = m[2].strip()
    if got != want or bool(text.strip()) != bool(want):
        ks = [k for k in sorted(set(got) | set(want))
              if got.get(k) != want.get(k)]
        raise Violation("report", f"{desc}: {ks[:4]}: " + "; ".join(
            f"told {got.get(k)}, but {want.get(k)}" for k in ks[:4]))
    if c["save"] == "yes":
        for k, data in files.items():
            with env.quiet():
                p = os.path.join(env.disk, k)
                x = None
                if os.path.isfile(p):
                    with open(p, "rb") as f:
                        x = f.read()
            if x is None or site.clean(x) != site.clean(data):
                raise Violation("saved", f"{desc}: {k} holds {x!r:.200}")
    return sorted(want.items())
