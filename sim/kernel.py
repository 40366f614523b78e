"""The simulation kernel: one Env is one simulated machine (disk, clock,
random pool, directory order, fault plan) inside one forked process.

Everything nondeterministic is decided here or in ``shim.c`` from the plan of
the run; nothing in this file draws random numbers or reads a real clock.
"""
import contextlib
import ctypes
import errno
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import warnings

# operations and actions of shim.c
OPENR, OPENW, READ, WRITE, TRUNC, CLOSE, RENAME, UNLINK, MKDIR, STAT, \
    OPENDIR, FSYNC, FLOCK, RMDIR, META = [1 << i for i in range(15)]
OPNAMES = {1 << i: n for i, n in enumerate(
    "openr openw read write trunc close rename unlink mkdir stat opendir "
    "fsync flock rmdir meta".split())}
OPS = {v: k for k, v in OPNAMES.items()}
ANY_MUTATION = OPENW | WRITE | TRUNC | RENAME | UNLINK | MKDIR | RMDIR | META
ERR, SHORT, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, INTR, EINTR, CALL, EOF = \
    range(1, 10)
ACTNAMES = {ERR: "error", SHORT: "short", CRASH_BEFORE: "crash-before",
            CRASH_TORN: "crash-torn", CRASH_AFTER: "crash-after",
            INTR: "sigint", EINTR: "eintr", CALL: "call", EOF: "eof"}
ACTS = {v: k for k, v in ACTNAMES.items()}


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Known(Exception):
    """A violation that is listed as a known finding."""


class Harness(Exception):
    """The harness (not the system under test) is broken."""


class Discard(Exception):
    """The generated plan makes no sense (nothing was tested)."""


class _LogEnt(ctypes.Structure):
    _fields_ = [(k, ctypes.c_int32) for k in
                ("op", "path", "path2", "fd", "fault", "err")] + \
               [("len", ctypes.c_int64), ("ret", ctypes.c_int64)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_present  # AttributeError if the shim is not preloaded
        _lib.sim_log.restype = ctypes.POINTER(_LogEnt)
        _lib.sim_path.restype = ctypes.c_char_p
        _lib.sim_open_path.restype = ctypes.c_char_p
        _lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64,
                                   ctypes.c_int64]
        _lib.sim_clock_now.restype = ctypes.c_int64
        _lib.sim_clock_reads.restype = ctypes.c_int64
        _lib.sim_clock_step.argtypes = [ctypes.c_int64]
        _lib.sim_space.argtypes = [ctypes.c_int64]
        _lib.sim_random.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _lib.sim_dirorder.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _lib.sim_add_fault.argtypes = [
            ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_int,
            ctypes.c_int, ctypes.c_int64, ctypes.c_int]
        if _lib.sim_init():
            raise RuntimeError("sim_init failed")
    return _lib


class Env:
    def __init__(self, base, package, db=None):
        self.base = base
        self.package = package          # directory of the sofar package
        self.disk = os.path.join(base, "disk")
        self.db = db or os.path.join(base, "db")
        self.tmp = os.path.join(base, "tmp")
        self.L = lib()
        self.events = []
        self.fired = {}
        self.probes = {}
        self.armed = []
        self.simtime = 0
        self.interleaving = None
        self.state = None
        self._t0 = 0
        self._nproc = 0

    # -- life cycle -------------------------------------------------------
    def begin(self, env):
        """Start the simulated machine; env are its knobs from the plan."""
        L = self.L
        for d in (self.disk, self.tmp):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self._redirect()
        os.environ["TMPDIR"] = self.tmp
        import tempfile
        tempfile.tempdir = self.tmp
        os.chdir(self.disk)
        os.environ["TZ"] = env.get("tz", "UTC")
        import time
        time.tzset()
        self._t0 = env.get("clock", 1_700_000_000) * 10**9
        self._step = env.get("step", 1000)
        L.sim_clock(1, self._t0, self._step)
        self._rand = env.get("rand", 1)
        L.sim_random(1, self._rand)
        L.sim_pid(4000)
        # of all simulated processes if set (e.g., containers sharing a disk)
        self.pid = None
        L.sim_dirorder(env.get("dirmode", 2), env.get("dirseed", 1))
        L.sim_clear_faults()
        L.sim_clear_log()
        L.sim_logging(1)

    def _redirect(self):
        L = self.L
        L.sim_clear_roots()
        L.sim_add_root(self.base.encode())
        if not self.db.startswith(self.base + "/"):
            L.sim_add_root(self.db.encode())
        L.sim_add_redirect(
            os.path.join(self.package, "sofa_conventions").encode(),
            self.db.encode())

    def fresh_db(self, files):
        """Give this run a private, writable convention database."""
        self.db = os.path.join(self.base, "rundb")
        shutil.rmtree(self.db, ignore_errors=True)
        for rel, text in files.items():
            full = os.path.join(self.db, rel)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(text.encode("windows-1252"))
        self._redirect()

    # -- faults -----------------------------------------------------------
    def arm(self, op, action, nth=1, sub="", err=0, arg=0, sticky=0):
        mask = op if isinstance(op, int) else sum(
            OPS[o] for o in op.split("|"))
        act = action if isinstance(action, int) else ACTS[action]
        if isinstance(err, str):
            err = getattr(errno, err)
        i = self.L.sim_add_fault(mask, sub.encode(), nth, act, err, arg,
                                 sticky)
        self.armed.append((i, OPNAMES.get(mask, "io"), ACTNAMES[act],
                           errno.errorcode.get(err, "")))
        return i

    def count_fired(self):
        n = 0
        for i, op, act, err in self.armed:
            k = self.L.sim_fault_fired(i)
            if k:
                name = f"{act}:{op}" + (f":{err}" if err else "")
                self.fired[name] = self.fired.get(name, 0) + k
                n += k
        return n

    def count_armed(self):
        """How often the armed faults have fired so far."""
        return sum(self.L.sim_fault_fired(i) for i, *_ in self.armed)

    def disarm(self):
        n = self.count_fired()
        self.L.sim_clear_faults()
        self.L.sim_space(-1)
        self.armed = []
        return n

    def note_fault(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    @contextlib.contextmanager
    def quiet(self):
        """I/O of the harness itself: not logged, no faults."""
        self.L.sim_quiet(1)
        try:
            yield
        finally:
            self.L.sim_quiet(-1)

    # -- observation ------------------------------------------------------
    def ev(self, *what):
        self.events.append(what)

    def log(self, start=0):
        L = self.L
        lg = L.sim_log()
        return [(OPNAMES[lg[i].op], L.sim_path(lg[i].path).decode(),
                 L.sim_path(lg[i].path2).decode() if lg[i].path2 >= 0 else "",
                 lg[i].len, lg[i].ret, lg[i].err, lg[i].fault)
                for i in range(start, L.sim_nlog())]

    def nlog(self):
        return self.L.sim_nlog()

    def digest(self):
        h = hashlib.sha256()
        for e in self.log():
            h.update(repr(e).encode())
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()[:24]

    def snapshot(self, root=None):
        """{relative path: sha of content or type} of a directory tree."""
        root = root or self.disk
        out = {}
        with self.quiet():
            for d, dirs, files in os.walk(root):
                dirs.sort()
                for x in dirs:
                    out[os.path.relpath(os.path.join(d, x), root)] = "dir"
                for x in sorted(files):
                    p = os.path.join(d, x)
                    if os.path.islink(p):
                        out[os.path.relpath(p, root)] = "link"
                        continue
                    with open(p, "rb") as f:
                        out[os.path.relpath(p, root)] = hashlib.sha256(
                            f.read()).hexdigest()[:16]
        return out

    def open_fds(self, sub="", writable=False):
        return self.L.sim_open_fds(sub.encode(), int(writable))

    def clock(self):
        return self.L.sim_clock_now()

    def set_clock(self, seconds):
        """Jump of the simulated clock (in any direction)."""
        now = self.L.sim_clock_now()
        self.simtime += max(0, now - self._t0)
        self.simtime += abs(seconds * 10**9 - now)
        self._t0 = seconds * 10**9
        self.L.sim_clock(1, self._t0, self._step)

    def total_simtime(self):
        return self.simtime + max(0, self.L.sim_clock_now() - self._t0)

    # -- observers and concurrent processes --------------------------------
    def observe(self, fn, op, sub="/disk"):
        """Call fn() right before every matching I/O operation."""
        self._cb = ctypes.CFUNCTYPE(None, ctypes.c_int)(lambda _: fn())
        self.L.sim_callback(self._cb)
        mask = op if isinstance(op, int) else sum(
            OPS[o] for o in op.split("|"))
        self.L.sim_add_fault(mask, sub.encode(), 1, CALL, 0, 0, 1)

    def concurrent(self, fns, switches, sub="/disk", faults=None):
        """Run the functions as concurrent simulated processes.

        Exactly one process runs at any time.  Every I/O operation on the
        simulated disk is a scheduling point; switches [[gap, k], ...] says
        after how many further points the k-th other live process continues.
        faults[i](env) arms the faults of process i.  Returns a list of
        (status, value) as process() does.
        """
        procs = []
        for i, fn in enumerate(fns):
            go_r, go_w = os.pipe()
            st_r, st_w = os.pipe()
            seed = self._new_random()
            pid = os.fork()
            if pid == 0:
                code = 0
                self.L.sim_random(1, seed)
                self.L.sim_pid(self.pid or 4000 + self._nproc)
                try:
                    os.close(go_w)
                    os.close(st_r)
                    for p in procs:
                        os.close(p["go"])
                        os.close(p["st"])
                    self._run_concurrent(i, fn, go_r, st_w, sub, faults)
                except BaseException:  # noqa: B902
                    import traceback
                    traceback.print_exc()
                    code = 99
                finally:
                    os._exit(code)
            os.close(go_r)
            os.close(st_w)
            procs.append({"pid": pid, "go": go_w, "st": st_r, "buf": b"",
                          "res": None})
        cur, si, trace = 0, 0, hashlib.sha256()
        alive = list(range(len(fns)))
        nsw = 0
        while alive:
            gap = 0
            if si < len(switches) and len(alive) > 1:
                gap = max(1, int(switches[si][0]))
            p = procs[cur]
            try:
                os.write(p["go"], b"%8d" % gap)
            except BrokenPipeError:
                pass
            msg = self._await(p)
            if msg == b"p":
                others = [a for a in alive if a != cur]
                nxt = others[int(switches[si][1]) % len(others)]
                si += 1
                lg = self.L.sim_nlog()
                last = self.log(lg - 1)[-1][:2] if lg else ()
                trace.update(f"{cur}>{nxt}@{last}".encode())
                nsw += 1
                cur = nxt
            else:
                alive.remove(cur)
                p["res"] = self._reap(p)
                trace.update(f"{cur}{p['res'][0]}".encode())
                if alive:
                    cur = alive[0]
        if nsw:
            self.interleaving = hashlib.sha256(
                ((self.interleaving or "") + trace.hexdigest()).encode()
            ).hexdigest()[:16]
            self.probe("process-switches", nsw)
        for p in procs:
            if p["res"][0] == "violation":
                raise Violation(*p["res"][1])
            if p["res"][0] == "harness":
                raise Harness("in simulated process:\n" + p["res"][1])
        return [p["res"] for p in procs]

    def _run_concurrent(self, i, fn, go_r, st_w, sub, faults):
        start_fired, nev = dict(self.fired), len(self.events)
        self.probes = {}
        budget = [0]

        def wait():
            b = b""
            while len(b) < 8:
                c = os.read(go_r, 8 - len(b))
                if not c:
                    os._exit(1)
                b += c
            budget[0] = int(b)

        def point():
            if budget[0]:
                budget[0] -= 1
                if budget[0] == 0:
                    os.write(st_w, b"p")
                    wait()
        wait()
        self.observe(point, (1 << 15) - 1, sub)
        if faults and faults[i]:
            faults[i](self)
        try:
            res = ("done", fn())
        except Violation as e:
            res = ("violation", [e.cls, e.msg])
        except BaseException as e:  # noqa: B902
            if is_harness_error(e, self.package):
                import traceback
                res = ("harness", traceback.format_exc())
            else:
                res = ("raised", describe(e))
        self.count_fired()
        delta = {k: v - start_fired.get(k, 0) for k, v in self.fired.items()
                 if v != start_fired.get(k, 0)}
        self.L.sim_clear_faults()
        _write_all(st_w, b"d" + json.dumps(
            [res, self.events[nev:], self.probes, delta]).encode())

    def _await(self, p):
        b = os.read(p["st"], 1)
        if b == b"d":
            while True:
                c = os.read(p["st"], 65536)
                if not c:
                    break
                p["buf"] += c
        return b

    def _reap(self, p):
        os.close(p["go"])
        os.close(p["st"])
        _, st = os.waitpid(p["pid"], 0)
        if os.WIFSIGNALED(st):
            self.note_fault("library-crash")
            return f"signal {os.WTERMSIG(st)}", None
        code = os.WEXITSTATUS(st)
        if code == 77:
            self.note_fault("crash:" + (self.log(self.nlog() - 1) or
                                        [("?",)])[-1][0])
            return "crash", None
        if code or not p["buf"]:
            raise Harness(f"simulated process failed with {code}")
        res, events, probes, fired = json.loads(p["buf"])
        self.events += [tuple(e) for e in events]
        for k, v in probes.items():
            self.probe(k, v)
        for k, v in fired.items():
            self.note_fault(k, v)
        return res[0], res[1]

    def _new_random(self):
        """Every simulated process meets randomness of its own."""
        self._nproc += 1
        return (self._rand * 1000003 + self._nproc * 7919) % (1 << 48) + 1

    # -- processes --------------------------------------------------------
    def process(self, fn, *args):
        """Run fn in a process of its own on the same simulated disk.

        Returns (status, value): status is "done", "raised", "crash"
        (simulated crash at an armed point) or "signal N".
        """
        r, w = os.pipe()
        sys.stdout.flush()
        seed = self._new_random()
        pid = os.fork()
        if pid == 0:
            code = 0
            self.L.sim_random(1, seed)
            self.L.sim_pid(self.pid or 4000 + self._nproc)
            start_fired = dict(self.fired)
            try:
                os.close(r)
                try:
                    res = ("done", fn(*args))
                except Violation as e:
                    res = ("violation", [e.cls, e.msg])
                except BaseException as e:  # noqa: B902
                    if is_harness_error(e, self.package):
                        import traceback
                        res = ("harness", traceback.format_exc())
                    else:
                        res = ("raised", describe(e))
                payload = json.dumps([res, self.events, self.probes])
                _write_all(w, payload.encode())
                self._save_fired(w, start_fired)
            except BaseException:  # noqa: B902
                import traceback
                traceback.print_exc()
                code = 99
            finally:
                os._exit(code)
        os.close(w)
        chunks = []
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        data = b"".join(chunks)
        if os.WIFSIGNALED(st):
            self.count_in_log()
            return f"signal {os.WTERMSIG(st)}", None
        code = os.WEXITSTATUS(st)
        if code == 77:
            self.note_crash()
            return "crash", None
        if code != 0 or b"\n" not in data:
            raise Harness(f"simulated process failed with {code}")
        head, tail = data.split(b"\n", 1)
        res, events, probes = json.loads(head)
        self.events = [tuple(e) for e in events]
        self.probes = probes
        for k, v in json.loads(tail).items():
            self.fired[k] = self.fired.get(k, 0) + v
        if res[0] == "violation":
            raise Violation(*res[1])
        if res[0] == "harness":
            raise Harness("in simulated process:\n" + res[1])
        return res[0], res[1]

    def _save_fired(self, w, before):
        self.count_fired()
        delta = {k: v - before.get(k, 0) for k, v in self.fired.items()
                 if v != before.get(k, 0)}
        _write_all(w, b"\n" + json.dumps(delta).encode())

    def note_crash(self):
        """Find out which armed fault crashed the process from the log."""
        lg = self.log()
        if lg and lg[-1][6] >= 0:
            for i, op, act, err in self.armed:
                if i == lg[-1][6]:
                    self.note_fault(f"{act}:{lg[-1][0]}")
                    return
        self.note_fault("crash")

    def count_in_log(self):
        self.note_fault("library-crash")


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def describe(e):
    return [type(e).__name__, str(e)[:300]]


def is_harness_error(e, package):
    """True if no frame of the package (or of a library called by it) raised:
    i.e. the innermost frame outside of libraries belongs to the harness."""
    tb = e.__traceback__
    seen_package = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(package):
            seen_package = True
        tb = tb.tb_next
    return not seen_package and not getattr(e, "from_sut", False)


@contextlib.contextmanager
def mute():
    """Capture what the system under test prints and warns."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings(
            record=True) as w:
        warnings.simplefilter("always")
        yield out, w


def call(fn, *args, **kw):
    """Call the system under test: ("ok", value) or ("raised", exc)."""
    with mute() as (out, w):
        try:
            return "ok", fn(*args, **kw)
        except (Violation, Discard):
            raise
        except BaseException as e:  # noqa: B902
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            return "raised", e


def must(cls, fn, *args, **kw):
    """Call something that has to succeed according to the property."""
    st, v = call(fn, *args, **kw)
    if st == "raised":
        raise Violation(cls, f"{getattr(fn, '__name__', fn)} raised "
                             f"{type(v).__name__}: {str(v)[:400]}")
    return v


class Lines:
    """Ctrl-C at a seeded position: counts the executed lines of the system
    under test and raises KeyboardInterrupt instead of executing the n-th."""

    def __init__(self, package, n=0):
        self.package, self.n, self.count, self.fired = package, n, 0, 0

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package):
            return None
        if event == "line":
            self.count += 1
            if self.count == self.n:
                self.fired = 1
                sys.settrace(None)
                raise KeyboardInterrupt
        return self._trace

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Output(io.StringIO):
    """Standard output that fails at the n-th write."""

    def __init__(self, n, exc):
        super().__init__()
        self.n, self.exc, self.count, self.fired = n, exc, 0, 0

    def write(self, text):
        self.count += 1
        if self.count == self.n:
            self.fired = 1
            raise self.exc
        return super().write(text)
