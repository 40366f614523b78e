"""A simulated www.sofaconventions.org behind the transport of ``requests``.

The real requests.Session (redirects, status, decoding, errors while the body
is read) runs; only HTTPAdapter.send, which would open sockets, is replaced.
"""
import gzip
import io
import json
import os
import random
import socket
from urllib.parse import urlsplit

import requests
import urllib3

from . import convdb
from .kernel import Violation

HOST = "www.sofaconventions.org"
EXCLUDED = ("General_", "GeneralString_")
WORDS = ["", "some comment", "dimension in \u00b5m (10 \u00b0C)", "a; b, c",
         "see \u00a75.2 \u2013 new", "(optional) 50 % \u00bd", "x" * 200]
FATAL = ["refused", "dns", "tls", "connect-timeout", "read-timeout", "reset",
         "reset", "short", "short", "body-timeout", "bad-gzip", "loop",
         "http-404", "http-403", "http-500", "http-503", "http-429",
         "http-502", "http-401", "http-410"]
BENIGN = ["redirect", "gzip", "slow", "pieces", "no-length"]


# -- what the server offers --------------------------------------------------
KINDS = ["comment", "comment", "default", "addrow", "delrow", "deprecate",
         "newver", "newconv", "letter", "letter", "flags"]


def gen_changes(rng, n):
    kinds = [rng.choice(KINDS)] if rng.random() < 0.4 else KINDS
    return [[rng.choice(kinds), rng.randrange(1 << 30)] for _ in range(n)]


def evolve(tabs, changes):
    """The tables after changes of the kinds that happen on the server:
    conventions are added, changed and deprecated."""
    tabs = {k: (dep, list(rows)) for k, (dep, rows) in tabs.items()}
    for kind, seed, *of in changes:
        rng = random.Random(seed)
        names = sorted(tabs)
        if seed % 3 == 0:
            names = [x for x in names if tabs[x][0]] or names
        name = rng.choice(names)
        if of and of[0] in tabs:
            name = of[0]
        dep, rows = tabs[name]
        i = rng.randrange(len(rows))
        n, d, f, dims, t, c = rows[i]
        if kind == "comment":
            rows[i] = (n, d, f, dims, t, rng.choice(WORDS))
        elif kind == "letter":
            # neither the length of the file nor much of it changes
            free = [j for j, r in enumerate(rows) if r[5]]
            if free:
                i = rng.choice(free[-3:] if rng.random() < 0.3 else free)
                n, d, f, dims, t, c = rows[i]
                k = rng.choice([0, len(c) - 1, rng.randrange(len(c))])
                new = c[k].swapcase()
                if new == c[k] or len(new) > 1 or ord(new) > 255:
                    new = "q" if c[k] != "q" else "p"
                rows[i] = (n, d, f, dims, t, c[:k] + new + c[k + 1:])
        elif kind == "flags":
            free = [j for j, r in enumerate(rows) if r[2] == "m"
                    and r[0] in ("GLOBAL:Title", "GLOBAL:Organization",
                                 "GLOBAL:AuthorContact", "GLOBAL:License",
                                 "RoomVolume")]
            if free:
                i = rng.choice(free)
                n, d, f, dims, t, c = rows[i]
                rows[i] = (n, d, None, dims, t, c)
        elif kind == "default":
            free = [j for j, r in enumerate(rows)
                    if r[0] in ("GLOBAL:License", "GLOBAL:Title",
                                "ReceiverPosition", "RoomVolume")]
            i = rng.choice(free)
            n, d, f, dims, t, c = rows[i]
            d = rng.choice(["", "other text", "text, more"]) \
                if t == "attribute" else rng.choice(
                    [[0, 0.5, 0], [[1, 0, 0], [0, -1, 0.25]]]) \
                if n == "ReceiverPosition" else rng.choice([7, 8.5])
            rows[i] = (n, d, f, dims, t, c)
        elif kind == "addrow":
            n = f"GLOBAL:Added{seed % 7}"
            if n not in [r[0] for r in rows]:
                rows.insert(rng.randrange(5, len(rows)),
                            (n, "", None, None, "attribute",
                             rng.choice(WORDS)))
        elif kind == "delrow":
            free = [r for r in rows if r[0] in (
                "GLOBAL:Origin", "GLOBAL:References", "GLOBAL:Comment")]
            if free:
                rows.remove(rng.choice(free))
        elif kind == "deprecate":
            tabs[name] = (True, rows)
        elif kind in ("newver", "newconv"):
            conv, ver = name.split("_")
            # (also more digits: versions are ordered by number, not text)
            step = [0.1 * (1 + seed % 9)] * 3 + [9, 8.3, 98.5]
            new = f"{conv}_{float(ver) + step[seed // 9 % 6]:.1f}" \
                if kind == "newver" else f"Conv{seed % 9}_{ver}"
            if new not in tabs:
                a, b = new.split("_")
                rows = [(r[0], {"GLOBAL:SOFAConventions": a,
                                "GLOBAL:SOFAConventionsVersion": b}.get(
                    r[0], r[1]), *r[2:]) for r in rows]
                tabs[new] = (rng.random() < 0.3, rows)
                if rng.random() < 0.4:
                    tabs[name] = (True, tabs[name][1])
    return tabs


class Site:
    def __init__(self, env, style):
        self.env, self.style = env, style
        self.files = {}         # (deprecated, file name) -> bytes
        self.requests = []      # (path, outcome, entries in the I/O log)
        self.faults = {}        # number of the request -> kind
        self.sticky = None
        self.failed, self.loops = {}, set()
        requests.adapters.HTTPAdapter.send = self._adapter()

    def publish(self, tabs, bad=None):
        """Offer these conventions; bad: name of a malformed file."""
        rng = random.Random(self.style)
        self.files = {}
        for name in sorted(tabs):
            dep, rows = tabs[name]
            text = convdb.csv_text(rows, rng.random() < 0.4,
                                   rng.choice([0, 0, 1, 2, 5]))
            if name == bad:
                lines = text.split("\n")
                i = 1 + rng.randrange(len(lines) - 2)
                lines[i] = rng.choice([
                    "broken", "broken\t[1 2", "a\tb", "x\t[1 2 z]\tm\tI\t"
                    "double\t"])
                text = "\n".join(lines)
            self.files[dep, name + ".csv"] = text.encode("windows-1252")
        if rng.random() < 0.5:
            self.files[False, "GeneralString_1.0.csv"] = b"not\tused\n"
            self.files[True, "General_1.0.csv"] = b"nonsense"

    @property
    def fatal(self):
        return sum(self.failed.values())

    def wanted(self):
        return [k for k in self.files if not k[1].startswith(EXCLUDED)]

    def plan(self, faults, expected=None):
        """faults: [[position in permille, kind, sticky], ...]"""
        n = 2 + len(self.wanted())
        self.requests, self.faults, self.sticky = [], {}, None
        self.failed, self.loops = {}, set()
        for at, kind, sticky in faults:
            self.faults[1 + at * n // 1000] = (kind, sticky)

    # -- the transport -------------------------------------------------------
    def _adapter(site):
        def send(self, request, stream=False, timeout=None, verify=True,
                 cert=None, proxies=None):
            return site.send(self, request)
        return send

    def send(self, adapter, request):
        nth = len(self.requests) + 1
        kind = None
        if nth in self.faults:
            kind, sticky = self.faults[nth]
            if sticky:
                self.sticky = kind
        kind = kind or self.sticky
        if request.url in self.loops:
            kind = "loop"
        u = urlsplit(request.url)
        path = "/".join([""] + [p for p in u.path.split("/") if p]) + (
            "/" if u.path.endswith("/") else "")
        self.requests.append((path, kind, self.env.nlog()))
        self.env.ev("request", path, kind or "")
        if kind:
            self.env.note_fault("net:" + kind)
        # a file counts as not downloaded if the last attempt failed
        self.failed[path.replace("/moved", "", 1)] = kind in FATAL
        if kind in ("sigint", "crash"):
            self.failed["interrupt"] = True
        status, body, headers = self.answer(path)
        ex = requests.exceptions
        if kind == "refused":
            raise ex.ConnectionError("connection refused", request=request)
        if kind == "dns":
            raise ex.ConnectionError("name resolution", request=request)
        if kind == "tls":
            raise ex.SSLError("certificate", request=request)
        if kind == "connect-timeout":
            raise ex.ConnectTimeout("timeout", request=request)
        if kind == "read-timeout":
            raise ex.ReadTimeout("timeout", request=request)
        if kind == "sigint":
            raise KeyboardInterrupt
        if kind == "crash":
            self.env.note_fault("crash:request")
            os._exit(77)
        if kind and kind.startswith("http-"):
            status = int(kind[5:])
            body = random.Random(self.style + nth).choice([
                b"", b"<html><body>Error</body></html>", body])
        fail = None
        if kind == "loop":
            self.loops.add(request.url)
            status, body = 302, b""
            headers["Location"] = request.url
        elif kind == "redirect" and "/moved" not in path:
            status, body = 301, b"moved"
            headers["Location"] = f"https://{HOST}/moved{path}"
        elif kind == "gzip":
            body = gzip.compress(body, mtime=0)
            headers["Content-Encoding"] = "gzip"
        elif kind == "bad-gzip":
            body = b"\x1f\x8b\x08" + body
            headers["Content-Encoding"] = "gzip"
        elif kind == "slow":
            self.env.set_clock(self.env.clock() // 10**9 + 3600)
        if kind != "no-length":
            headers["Content-Length"] = str(len(body))
        if kind in ("reset", "body-timeout", "short"):
            if not body:
                body = b"x"
                headers["Content-Length"] = "1"
            at = random.Random(self.style * 31 + nth).randrange(len(body))
            body = body[:at]
            fail = {"reset": ConnectionResetError(104, "reset by peer"),
                    "body-timeout": socket.timeout("timed out"),
                    "short": None}[kind]
        raw = urllib3.HTTPResponse(
            body=Body(body, fail, 7 if kind == "pieces" else 0),
            headers=headers, status=status, reason="x",
            preload_content=False, request_method=request.method,
            request_url=request.url)
        return adapter.build_response(request, raw)

    def answer(self, path):
        if path.startswith("/moved"):
            path = path[6:]
        html = {"Content-Type": "text/html; charset=utf-8"}
        if path == "/conventions/":
            return 200, self.index(False), html
        if path == "/conventions/deprecated/":
            return 200, self.index(True), html
        d, name = os.path.split(path)
        key = (d.endswith("/deprecated"), name)
        if d in ("/conventions", "/conventions/deprecated") and \
                key in self.files:
            return 200, self.files[key], {"Content-Type": "text/csv"}
        self.env.ev("not found", path)
        return 404, b"<html><body><a href='x.csv'>x</a></body></html>", html

    def index(self, dep):
        rng = random.Random(self.style + dep)
        names = sorted(n for d, n in self.files if d == dep)
        rng.shuffle(names)
        base = "/conventions/" + ("deprecated/" if dep else "")
        how = rng.choice(["{}", base + "{}", "https://" + HOST + base + "{}",
                          "./{}"])
        links = ['<a href="?C=N;O=D">Name</a>', '<a href="/">Parent</a>']
        if not dep:
            links.append('<a href="deprecated/">deprecated/</a>')
        links += ['<a href="{}">{}</a>'.format(how.format(n), n[:9])
                  for n in names]
        return ("<html><head><title>Index</title></head><body><pre>" +
                "\n".join(links) + "</pre></body></html>").encode()


class Body(io.RawIOBase):
    """The bytes of a response as they arrive from the socket."""

    def __init__(self, data, fail, piece):
        self._b, self._fail, self._piece = io.BytesIO(data), fail, piece

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None:
            n = -1
        if self._piece and n > 0:
            n = min(n, self._piece)
        d = self._b.read(n)
        if (not d or n < 0) and self._fail is not None:
            raise self._fail
        return d

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


# -- the convention directory ------------------------------------------------
def db_bytes(env, where):
    """{relative path: bytes} below the directory of the conventions."""
    out = {}
    with env.quiet():
        for d, dirs, files in os.walk(where):
            dirs.sort()
            for x in sorted(files):
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, where)] = f.read()
    return out


def clean(data):
    return b"\n".join(x.rstrip(b"\r").rstrip(b"\t")
                      for x in data.split(b"\n"))


def check_installed(env, where, tabs, local, what, cls="not-converged"):
    """The directory holds exactly the conventions tabs and the local ones."""
    got = {k: v for k, v in db_bytes(env, where).items()
           if not k.endswith(".part")}
    want = dict(local)
    for name, (dep, rows) in tabs.items():
        base = ("deprecated/" if dep else "") + name
        want[base + ".csv"] = clean(convdb.csv_text(rows).encode(
            "windows-1252"))
        want[base + ".json"] = convdb.json_dict(rows)
    for k in sorted(set(want) | set(got)):
        if k not in got:
            raise Violation(cls, f"{what}: {k} is missing")
        if k not in want:
            raise Violation(cls, f"{what}: {k} must not be there")
        if k in local:
            same = got[k] == want[k]
        elif k.endswith(".csv"):
            same = clean(got[k]) == want[k]
        else:
            same = parse(got[k]) == want[k]
        if not same:
            raise Violation(cls, f"{what}: {k} has the wrong content "
                            f"({len(got[k])} bytes: {got[k][:200]})")


def parse(data):
    try:
        return json.loads(data.decode("utf-8"))
    except ValueError:
        return None


def mutations(env, where, start, end=None):
    """Changes of files of the convention directory in the I/O log."""
    w = os.path.relpath(where, env.base)
    out = []
    for i, e in enumerate(env.log(start)):
        if end is not None and start + i >= end:
            break
        if e[0] in ("openw", "write", "trunc", "rename", "unlink") and \
                (f"/{w}/" in e[1] or f"/{w}/" in e[2]) and e[4] >= 0:
            out.append((start + i, e))
    return out
