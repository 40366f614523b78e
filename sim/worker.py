"""A simulation worker: a zygote process that has the system under test
imported (with the simulated OS preloaded) and forks one child per run."""
import faulthandler
import gc
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, REPO)


def child(prop, plan, base, db, out):
    from sim import kernel
    import sofar
    package = os.path.dirname(os.path.abspath(sofar.__file__))
    env = kernel.Env(base, package, db)
    # the garbage collector starts every run in the same state
    gc.enable()
    gc.collect()
    res = {"status": "ok", "cls": "", "msg": ""}
    try:
        env.begin(plan.get("env", {}))
        prop.run(env, plan)
    except kernel.Violation as e:
        res.update(status="violation", cls=e.cls, msg=e.msg)
    except kernel.Discard as e:
        res.update(status="discard", msg=str(e))
    except kernel.Known as e:
        res.update(status="known", cls="unlisted-finding", msg=str(e))
    except BaseException as e:  # noqa: B902
        text = traceback.format_exc()
        if kernel.is_harness_error(e, package) or \
                isinstance(e, kernel.Harness):
            res.update(status="harness", msg=text)
        else:
            res.update(status="violation", cls="unexpected-exception",
                       msg=f"{type(e).__name__}: {e}\n{text}")
    try:
        env.count_fired()
    except Exception:  # noqa: B902
        pass
    res["msg"] = res["msg"].replace(base, "")
    if env.L.sim_dropped():
        res.update(status="harness", msg="the log of the I/O is full")
    res.update(digest=env.digest(), fired=env.fired, probes=env.probes,
               simtime=env.total_simtime(), inter=env.interleaving,
               nops=env.nlog(), state=env.state)
    if plan.get("trace"):
        res["log"] = env.log()
        res["events"] = [repr(e) for e in env.events]
    kernel._write_all(out, json.dumps(res, default=str).encode())


def run_one(prop, plan, base, db, limit):
    r, w = os.pipe()
    where = os.memfd_create("stacks")
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            # (shows where a run hangs)
            faulthandler.register(signal.SIGUSR2, where, True)
            os.close(r)
            child(prop, plan, base, db, w)
        except BaseException:  # noqa: B902
            traceback.print_exc()
            os._exit(98)
        os._exit(0)
    os.close(w)
    chunks, end, hang = [], time.monotonic() + limit, False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if hang:
        for sig in (signal.SIGUSR2, signal.SIGKILL):
            try:
                os.killpg(pid, sig)
            except OSError:
                os.kill(pid, sig)
            if sig == signal.SIGUSR2:
                time.sleep(0.5)
    _, st = os.waitpid(pid, 0)
    stacks = b""
    if hang:
        stacks = os.pread(where, 1 << 16, 0)
    os.close(where)
    if hang:
        return {"status": "hang", "cls": "hang", "digest": "",
                "msg": f"no result within {limit} s",
                "stacks": stacks.decode("utf-8", "replace")}
    try:
        os.killpg(pid, signal.SIGKILL)      # stray simulated processes
    except OSError:
        pass
    if os.WIFSIGNALED(st):
        return {"status": "signal", "cls": f"signal-{os.WTERMSIG(st)}",
                "msg": f"run died with signal {os.WTERMSIG(st)}",
                "digest": ""}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "harness", "cls": "", "digest": "",
                "msg": f"no result, exit code {os.WEXITSTATUS(st)}"}


def main():
    propname, base = sys.argv[1], sys.argv[2]
    # nothing of the state of the calling process may change a run (Ctrl-C
    # is ignored in processes that a script starts in the background)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for sig in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGCHLD):
        signal.signal(sig, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)
    os.makedirs(base, exist_ok=True)
    from sim import kernel, convdb, threads
    threads.patch_locks()
    from sim.kernel import lib
    L = lib()
    dbdir = os.path.join(base, "dbmaster")
    convdb.write(dbdir)
    import sofar
    package = os.path.dirname(os.path.abspath(sofar.__file__))
    # warm up lazily initialised parts of the libraries
    L.sim_add_root(base.encode())
    L.sim_add_redirect(os.path.join(package, "sofa_conventions").encode(),
                       dbdir.encode())
    with kernel.mute():
        try:
            s = sofar.Sofa("SimpleFreeFieldHRIR")
            p = os.path.join(base, "warm.sofa")
            sofar.write_sofa(p, s)
            sofar.read_sofa(p)
            with sofar.SofaStream(p) as f:
                f.Data_IR[:]
        except Exception:  # noqa: B902
            pass        # judged in the runs, not here
    L.sim_clear_roots()
    prop = importlib.import_module("sim.props." + propname)
    sys.stdin = open(0, "rb", buffering=0, closefd=False)
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    buf = b""
    n = 0
    gc.collect()
    gc.freeze()
    gc.disable()
    while True:
        while b"\n" not in buf:
            b = os.read(0, 1 << 16)
            if not b:
                return
            buf += b
        line, buf = buf.split(b"\n", 1)
        job = json.loads(line)
        n += 1
        rundir = os.path.join(base, "r")
        shutil.rmtree(rundir, ignore_errors=True)
        os.makedirs(rundir)
        res = run_one(prop, job["plan"], rundir, dbdir,
                      job.get("limit", 60))
        shutil.rmtree(rundir, ignore_errors=True)
        res["job"] = job["job"]
        kernel._write_all(out, json.dumps(res).encode() + b"\n")


if __name__ == "__main__":
    main()
