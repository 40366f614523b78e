"""The simulated thread scheduler.

Simulated threads are real threads of which exactly one runs at any time.
Every line (or every bytecode) of the system under test is a scheduling
point; the plan of the run says at which points which thread is switched to.
Locks created by the system under test are replaced by locks the scheduler
knows about, so that waiting is a scheduling decision too and a deadlock is
detected rather than waited for.
"""
import os
import random
import sys
import threading as _t
import hashlib

_real_lock, _real_rlock, _real_thread = _t.Lock, _t.RLock, _t.Thread
current = None          # the active Scheduler


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class SimLock:
    """Drop-in for threading.Lock / RLock."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._real = (_real_rlock if reentrant else _real_lock)()
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = s.me() if s else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        if self._re and self._owner is me:
            self._n += 1
            return True
        s.point()
        while self._owner is not None:
            if not blocking:
                return False
            me.blocked_on = self
            s.switch_away(me)
            me.blocked_on = None
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner is None:
            return self._real.release()
        self._n -= 1
        if self._n <= 0:
            self._owner, self._n = None, 0

    def locked(self):
        return self._owner is not None or (
            self._real.locked() if hasattr(self._real, "locked") else False)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        return SimLock(self._re)

    def __reduce__(self):
        return (SimLock, (self._re,))

    def _is_owned(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        pass


_patched = False


def patch_locks():
    """Before importing the system under test: modules that ask for a lock
    while being executed from its package get a SimLock."""
    global _patched
    if _patched:
        return
    _patched = True

    def from_sut():
        f = sys._getframe(2)
        return "/sofar/" in f.f_code.co_filename

    def lock():
        return SimLock() if from_sut() else _real_lock()

    def rlock():
        return SimLock(True) if from_sut() else _real_rlock()

    _t.Lock, _t.RLock = lock, rlock


class Task:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.blocked_on = None


_lines = {}


def code_lines(package):
    """All code lines of functions of the package, as (module, line)."""
    if package not in _lines:
        out = set()

        def visit(code, top):
            if not top:
                out.update((os.path.basename(code.co_filename), n)
                           for _, _, n in code.co_lines()
                           if n and n > code.co_firstlineno)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    visit(c, top and c.co_name[:1].isupper())
        for mod in ("sofa", "io", "sofastream", "utils"):
            path = os.path.join(package, mod + ".py")
            if os.path.exists(path):
                with open(path, encoding="utf-8") as f:
                    visit(compile(f.read(), path, "exec"), True)
        _lines[package] = sorted(out)
    return _lines[package]


def gen_targets(rng):
    return [[rng.randrange(100000), rng.choice([1, 1, 1, 2, 4, 20]),
             rng.choice([50, 500, 5000, 50000, 50000])]
            for _ in range(rng.choice([3, 8, 15]))]


def storm(gap, seed):
    """Endless switches after 1 to gap points each."""
    rng = random.Random(seed)
    while True:
        yield rng.randint(1, gap), rng.randrange(6)


class Scheduler:
    """Run the functions as simulated threads.

    switches: list of [gap, k]: after `gap` further scheduling points, switch
    to the k-th (mod number of runnable) other runnable thread.
    """

    def __init__(self, package, fns, switches, opcodes=False, limit=400000,
                 targets=()):
        self.package = package
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.switches = iter(switches)
        self.opcodes = opcodes
        self.limit = limit
        self.n = 0                  # scheduling points so far
        self.next_at = None
        self.trace = hashlib.sha256()
        self.nswitch = 0
        self.by_ident = {}
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.fatal = None
        # [index of a code line, visit, gap]: when a thread comes to the line
        # for the visit-th time, the others continue for gap points
        self.targets = {}
        if targets:
            lines = code_lines(package)
            for idx, visit, gap in targets:
                sel = lines if idx % 2 else [
                    x for x in lines if x[0] == "sofa.py"] or lines
                self.targets[sel[int(idx) % len(sel)]] = [
                    max(1, int(visit)), max(1, int(gap))]
        self._plan_next()

    def _plan_next(self):
        nxt = next(self.switches, None)
        if nxt is None:
            self.next_at = None
        else:
            self.next_at = self.n + max(1, int(nxt[0]))
            self.next_k = int(nxt[1])

    def me(self):
        return self.by_ident.get(_t.get_ident())

    def runnable(self):
        return [t for t in self.tasks if not t.done and (
            t.blocked_on is None or t.blocked_on._owner is None)]

    # -- called by the running thread -------------------------------------
    def point(self, where=None):
        self.n += 1
        if self.fatal:
            raise self.fatal
        if self.n > self.limit:
            self.fatal = StepLimit(f"more than {self.limit} steps")
            raise self.fatal
        t = self.targets.get(where)
        if t is not None:
            t[0] -= 1
            if t[0] == 0:
                me = self.me()
                others = [x for x in self.runnable() if x is not me]
                if others:
                    self.next_at, self.next_k = self.n + t[1], 0
                    self._switch(me, others[0], where)
                    return
        if self.next_at is not None and self.n >= self.next_at:
            me = self.me()
            others = [t for t in self.runnable() if t is not me]
            k = self.next_k
            self._plan_next()
            if others:
                self._switch(me, others[k % len(others)], where)

    def _switch(self, me, t, where):
        self.trace.update(f"{me.idx}>{t.idx}@{where}".encode())
        self.nswitch += 1
        self._handover(me, t)

    def _handover(self, me, t):
        t.gate.release()
        me.gate.acquire()
        if self.fatal:
            raise self.fatal

    def switch_away(self, me):
        """me cannot go on."""
        others = [t for t in self.runnable() if t is not me]
        if not others:
            self.fatal = Deadlock("all simulated threads wait")
            raise self.fatal
        self.nswitch += 1
        self.trace.update(f"{me.idx}b{others[0].idx}".encode())
        self._handover(me, others[0])

    # -- tracing ----------------------------------------------------------
    def _global_trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.package):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point((os.path.basename(frame.f_code.co_filename),
                        frame.f_lineno))
        return self._local_trace

    def _body(self, task):
        task.gate.acquire()
        self.by_ident[_t.get_ident()] = task
        sys.settrace(self._global_trace)
        try:
            if self.fatal:
                raise self.fatal
            task.result = task.fn()
        except BaseException as e:  # noqa: B902
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            rest = self.runnable()
            if rest:
                rest[0].gate.release()
            elif any(not t.done for t in self.tasks):
                self.fatal = self.fatal or Deadlock("the others wait forever")
                for t in self.tasks:
                    if not t.done:
                        t.blocked_on = None
                [t for t in self.tasks if not t.done][0].gate.release()
            else:
                self.main_gate.release()

    def run(self):
        global current
        current = self
        ths = [_real_thread(target=self._body, args=(t,), daemon=True)
               for t in self.tasks]
        for th in ths:
            th.start()
        self.tasks[0].gate.release()
        self.main_gate.acquire()
        for th in ths:
            th.join()
        current = None
        if self.fatal:
            raise self.fatal
        return self.tasks

    def interleaving(self):
        return self.trace.hexdigest()[:16]
