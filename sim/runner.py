"""Seeded search over simulated runs, minimisation, replay and evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
BAD = ("violation", "hang", "signal", "known")


def scratch():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="sofarsim-", dir=d)
            except OSError:
                continue
    raise SystemExit("no scratch directory")


def build_shim(base):
    so = os.path.join(base, "simio.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so,
                    os.path.join(HERE, "shim.c"), "-ldl"], check=True,
                   stdout=subprocess.DEVNULL)
    return so


class Worker:
    def __init__(self, prop, base, so, k, hashseed="0"):
        env = {k_: v for k_, v in os.environ.items()
               if k_ in ("PATH", "HOME", "LANG", "SIM_REPO", "SIM_PYTHON")}
        env.update(LD_PRELOAD=so, PYTHONHASHSEED=hashseed,
                   PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                   OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   HDF5_USE_FILE_LOCKING="TRUE", PYTHONPATH="",
                   LC_ALL="C.UTF-8", TZ="UTC")
        self.base = os.path.join(base, f"w{k:03d}")
        self.err = open(os.path.join(base, f"w{k:03d}.err"), "wb")
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), prop, self.base],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=base, bufsize=0, start_new_session=True)
        self.buf = b""
        self.job = None

    def submit(self, jid, plan, limit):
        self.job = (jid, plan)
        self.p.stdin.write(json.dumps(
            {"job": jid, "plan": plan, "limit": limit}).encode() + b"\n")

    def read(self):
        b = os.read(self.p.stdout.fileno(), 1 << 16)
        if not b:
            with open(self.err.name, errors="replace") as f:
                tail = f.read()[-3000:]
            raise RuntimeError("worker ended:\n" + tail)
        self.buf += b
        if b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.job = None
            return json.loads(line)
        return None

    def close(self):
        import signal
        try:
            self.p.stdin.close()
            self.p.wait(timeout=2)
        except Exception:  # noqa: B902
            pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class Pool:
    def __init__(self, prop, n=8, hashseed="0"):
        self.base = scratch()
        self.prop = prop
        self.hashseed = hashseed
        try:
            self.so = build_shim(self.base)
            self.ws = [Worker(prop, self.base, self.so, k, hashseed)
                       for k in range(n)]
        except BaseException:
            shutil.rmtree(self.base, ignore_errors=True)
            raise

    def map(self, jobs, limit=60, stop=None):
        """jobs: iterator of (id, plan); yields (id, plan, result)."""
        jobs = iter(jobs)
        idle, busy = list(self.ws), {}
        exhausted = False
        while True:
            while idle and not exhausted:
                if stop and stop():
                    exhausted = True
                    break
                try:
                    jid, plan = next(jobs)
                except StopIteration:
                    exhausted = True
                    break
                w = idle.pop()
                w.submit(jid, plan, limit)
                busy[w.p.stdout.fileno()] = (w, plan)
            if not busy:
                return
            for fd in select.select(list(busy), [], [])[0]:
                w, plan = busy[fd]
                res = w.read()
                if res is not None:
                    del busy[fd]
                    idle.append(w)
                    yield res.pop("job"), plan, res

    def one(self, plan, limit=60):
        for _, _, r in self.map([(0, plan)], limit):
            return r

    def close(self):
        for w in self.ws:
            w.close()
        shutil.rmtree(self.base, ignore_errors=True)


# -- plans -------------------------------------------------------------------
def rng_for(pid, seed, i):
    h = hashlib.sha256(f"{pid}/{seed}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def make_plan(prop, pid, seed, i, tier):
    rng = rng_for(pid, seed, i)
    plan = prop.gen_plan(rng, tier, i)
    plan["run"] = [pid, seed, i]
    return plan


# -- minimisation ------------------------------------------------------------
def lists_in(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("run", "env"):
                continue
            yield from lists_in(v, path + (k,))
    elif isinstance(x, list):
        if x and path and path[-1] in MINLISTS:
            yield path
        for i, v in enumerate(x):
            yield from lists_in(v, path + (i,))


MINLISTS = {"steps", "faults", "switches", "custom", "threads", "ops",
            "objects", "files", "edits", "values", "strings", "drop",
            "changes", "sessions", "rounds"}


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    x = json.loads(json.dumps(x))
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def ints_in(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("run",):
                continue
            if isinstance(v, int) and not isinstance(v, bool) and \
                    k in ("M", "N", "R", "E", "gap", "len", "n") and v > 1:
                yield path + (k,)
            else:
                yield from ints_in(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from ints_in(v, path + (i,))


def candidates(plan):
    for path in sorted(lists_in(plan), key=len):
        lst = get(plan, path)
        n = len(lst)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield put(plan, path, lst[:a] + lst[a + size:])
            size //= 2
    for path in ints_in(plan):
        yield put(plan, path, 1)
        v = get(plan, path)
        if v > 3:
            yield put(plan, path, v // 2)


def minimise(pool, plan, want, limit, budget=40.0, maxruns=400):
    end = time.monotonic() + budget
    runs = 0
    progress = True
    while progress and time.monotonic() < end and runs < maxruns:
        progress = False
        found = []
        cand = list(candidates(plan))[:maxruns - runs]
        it = iter(enumerate(cand))
        for _, c, r in pool.map(
                it, limit,
                stop=lambda: bool(found) or time.monotonic() > end):
            runs += 1
            if r["status"] in BAD and r["cls"] == want:
                found.append(c)
        if found:
            plan = min(found, key=lambda c: len(json.dumps(c)))
            progress = True
    return plan, runs


# -- the check ---------------------------------------------------------------
def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property="):
                    rest = line[len("known: property="):].strip()
                    pid, key, what = rest.split(" ", 2)
                    out.setdefault(pid, {})[key] = what
    return out


def library_may_abort(x):
    """The HDF5 library aborts the process after some failing system calls
    (e.g., if reading fails while it closes a file). This is no behaviour of
    sofar, and possible only in runs with errors."""
    if isinstance(x, dict):
        return x.get("act") == "error" or \
            any(library_may_abort(y) for y in x.values())
    return isinstance(x, list) and any(library_may_abort(y) for y in x)


def check(pid, tier, seed, workers=8, runs=None, verbose=False, wall=None):
    t0 = time.monotonic()
    prop = importlib.import_module("sim.props." + pid.lower())
    total = runs or prop.RUNS[tier]
    wall = wall or (420 if tier == "quick" else 3000)
    limit = getattr(prop, "LIMIT", 60)
    pool = Pool(pid.lower(), workers)
    counts, fired, probes = {}, {}, {}
    digests, inter, states = set(), set(), set()
    simtime, nops = 0, 0
    samples, bad, hangs = [], [], []
    nontriv = set()
    known_hits = set()
    harness = []
    done = 0
    listed = load_known().get(pid, {})
    try:
        def jobs():
            for i in range(total):
                yield i, make_plan(prop, pid, seed, i, tier)

        def stop():
            return bool(bad) or len(harness) > 5 + done // 500 or \
                len(hangs) > 3 or \
                time.monotonic() - t0 > wall
        for i, plan, r in pool.map(jobs(), limit, stop):
            done += 1
            if r["status"] == "known" and \
                    r["msg"].split(" ")[0] not in listed:
                r["status"], r["cls"] = "violation", "unlisted-finding"
            st = r["status"]
            counts[st] = counts.get(st, 0) + 1
            if st == "harness":
                harness.append((i, r["msg"]))
                continue
            if st == "hang":
                hangs.append((i, plan, r))
                print(f"no result within {limit} s: run {i}\n"
                      f"{r.get('stacks', '')[:6000]}", file=sys.stderr)
                continue
            if st == "signal" and library_may_abort(plan):
                counts[st] -= 1
                counts["library-crash"] = counts.get("library-crash", 0) + 1
                continue
            if st in BAD and st != "known":
                bad.append((i, plan, r))
                continue
            for k, v in r.get("fired", {}).items():
                fired[k] = fired.get(k, 0) + v
            for k, v in r.get("probes", {}).items():
                probes[k] = probes.get(k, 0) + v
            simtime += r.get("simtime", 0)
            nops += r.get("nops", 0)
            if st == "known":
                known_hits.add(r["msg"])
            digests.add(r["digest"])
            if r.get("inter"):
                inter.add(r["inter"])
            if r.get("state"):
                states.add(r["state"])
            if st == "ok" and (r.get("fired") or r.get("inter")
                               or r.get("probes", {}).get("nontrivial")):
                nontriv.add(r["digest"])
                if len(samples) < 3:
                    samples.append({"plan": plan,
                                    "fired": r.get("fired"),
                                    "probes": r.get("probes")})
        truncated = done < total and not bad
        # hangs: believed only if a far larger limit does not help
        for i, plan, r in hangs[:2]:
            if bad:
                break
            r2 = pool.one(plan, limit * 3)
            if r2["status"] in BAD:
                bad.append((i, plan, r2))
        # a run that the harness could not judge says nothing, and is counted
        # as such; if there are many of them the check has no answer
        for i, msg in harness[:3]:
            print(f"HARNESS ERROR property={pid} run={i}\n{msg}")
        if len(harness) > 5 + done // 500 and not bad:
            return 2
        code = 0
        replay = None
        if bad:
            bad.sort(key=lambda x: x[0])
            code, replay = report(pool, prop, pid, seed, bad[0], limit, tier)
            if code == 2:
                return 2
        elif truncated:
            print(f"TIME LIMIT property={pid}: {done} of {total} runs")
            if done < total // 10:
                return 2
        wall_s = time.monotonic() - t0
        write_evidence(prop, pid, tier, seed, dict(
            evaluations=done, distinct_nontrivial=len(nontriv),
            rule=prop.RULE, samples=samples,
            outcomes=counts, runs_per_hour=int(done / wall_s * 3600),
            seeds_per_hour=int(done / wall_s * 3600),
            workers=workers,
            simulated_seconds=round(simtime / 1e9, 3),
            simulated_io_operations=nops,
            faults_fired=dict(sorted(fired.items())),
            rare_conditions=dict(sorted(probes.items())),
            distinct_event_logs=len(digests),
            distinct_interleavings=len(inter),
            interleaving_measure=(
                "hash of the sequence of (from-thread, to-thread, code "
                "position) context switches"),
            distinct_states=len(states),
            state_measure=getattr(prop, "STATE", "not used"),
            real_components=REAL, stub_components=STUBS,
            known_findings=sorted(known_hits)),
            wall_s, len(bad), replay)
        if code == 0:
            for k in sorted(known_hits):
                print(f"KNOWN-FINDING: property={pid} {k}")
            nf = sum(fired.values())
            print(f"OK property={pid} runs={done} nontrivial={len(nontriv)} "
                  f"faults={nf} interleavings={len(inter)} "
                  f"wall={wall_s:.1f}s")
        return code
    finally:
        pool.close()


REAL = ["sofar (all modules, unmodified, from the working tree)",
        "CPython, numpy, netCDF4-python, netCDF-C, HDF5, zlib",
        "beautifulsoup4 (update_conventions)", "kernel file system (tmpfs) "
        "below the simulated-disk interposition layer"]
STUBS = ["operating system interface (LD_PRELOAD): faults, short transfers, "
         "crashes, directory order, clock, random pool",
         "sofa_conventions submodule (fixture written by the harness)",
         "requests.get and the web server behind it (C12, C13)",
         "threading scheduler (trace-driven, C08, C09)"]


def report(pool, prop, pid, seed, item, limit, tier):
    i, plan, r = item
    want = r["cls"]
    if r["status"] != "hang":
        small, n = minimise(pool, plan, want, limit)
    else:
        small, n = plan, 0
    # replay in fresh processes
    lim = limit * (2 if r["status"] == "hang" else 1)
    results = []
    for _ in range(2):
        p2 = Pool(pid.lower(), 1)
        try:
            results.append(p2.one(dict(small, trace=True), lim))
        finally:
            p2.close()
    ok = [x for x in results if x["status"] in BAD and x["cls"] == want]
    if not ok:
        # fall back to the unminimised plan
        p2 = Pool(pid.lower(), 1)
        try:
            r3 = p2.one(dict(plan, trace=True), lim)
        finally:
            p2.close()
        if not (r3["status"] in BAD and r3["cls"] == want):
            print(f"HARNESS ERROR property={pid} run={i}: the failure "
                  f"'{want}' does not replay: {r['msg']}\n now: {r3}")
            return 2, None
        small, ok, results = plan, [r3], [r3]
    exact = len({x["digest"] for x in results}) == 1
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{pid}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "run": i, "tier": tier,
                   "violation": want, "message": ok[0]["msg"],
                   "digest": ok[0]["digest"], "replays_exactly": exact,
                   "minimisation_runs": n, "plan": small,
                   "unminimised_plan": plan,
                   "io_log": ok[0].get("log", [])[-400:],
                   "events": ok[0].get("events", [])[-200:]}, f, indent=1)
    print(f"violation class: {want}\n{ok[0]['msg'][:1500]}")
    print(f"seed {seed} run {i}; minimised plan: "
          f"{json.dumps(small)[:1500]}")
    print(f"replay with: python3 check.py --replay {path}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1, path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    pid = rec["property"]
    prop = importlib.import_module("sim.props." + pid.lower())
    pool = Pool(pid.lower(), 1)
    try:
        r = pool.one(dict(rec["plan"], trace=True),
                     getattr(prop, "LIMIT", 60) *
                     (4 if rec["violation"] == "hang" else 1))
    finally:
        pool.close()
    print(f"{r['status']} {r['cls']}\n{r['msg']}")
    if r["status"] == "signal" and library_may_abort(rec["plan"]):
        return 0
    if r["status"] in BAD and r["cls"] == rec["violation"]:
        print("same violation" + (", identical event log"
                                  if r["digest"] == rec["digest"] else
                                  ", different event log"))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0 if r["status"] in ("ok", "known", "discard") else 2


def write_evidence(prop, pid, tier, seed, coverage, wall_s, nbad, replay):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if replay:
        coverage["replay"] = replay
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": coverage,
          "assumptions": getattr(prop, "ASSUMPTIONS", []) + [
              "simulated crash = process death; what reached the kernel "
              "survives (no power-loss model)",
              "the convention database is the harness's fixture, because "
              "the submodule is not part of this checkout"],
          "wall_s": round(wall_s, 2), "violations": nbad}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
