"""A recording ASGI server: drives an application on asyncio or trio and logs
every event at the server/application boundary, plus the protocol monitors that
judge such a log."""
from __future__ import annotations

import asyncio
import copy
import gc
import random
import threading
import warnings

import anyio
import trio

try:
    import trio._core._run as _trun

    _TR = _trun._r
except Exception:  # pragma: no cover
    _TR = None


def hdr(pairs):
    return [(k.encode("latin-1"), v.encode("latin-1")) for k, v in pairs]


def query_text(got, raw):
    """A query as reported in a URL, with what the client sent outside ASCII (raw: one character per byte) as the client sent it:
    such bytes may be shown percent-encoded or, where they are UTF-8, as that text."""
    if got is None or raw.isascii():
        return got
    from urllib.parse import unquote_to_bytes

    b = raw.encode("latin-1")
    return raw if unquote_to_bytes(got.encode("utf-8", "surrogateescape")) == unquote_to_bytes(b) else got


def host_kind(h):
    """The value of a Host header: 'host' (with or without a port), 'malformed', or 'unclear'."""
    import ipaddress
    import re

    m = re.fullmatch(r"(\[[^\[\]]*\]|[^:\[\]]*)(?::([0-9]*))?", h, re.S)
    if set("/?#@\\ \t") & set(h) or not h or h[0] == ":":
        return "malformed"
    if not m:
        return "unclear" if "[" in h or "]" in h else "malformed"
    if m[2] and (len(m[2]) > 4000 or int(m[2]) > 65535):
        return "malformed"
    if m[1][0] == "[":
        try:
            ipaddress.IPv6Address(m[1][1:-1])
        except ValueError:
            return "unclear"
        return "unclear" if "%" in h else "host"
    return "host" if re.fullmatch(r"[A-Za-z0-9_.-]+", m[1]) else "unclear"


def http_scope(method="GET", path="/", headers=(), query="", root_path="", scheme="http", server=("testserver", 80),
               client=("testclient", 50000), http_version="1.1", spec_version="2.3", extensions=None, **extra):
    from urllib.parse import quote

    s = {
        "type": "http",
        "asgi": {"version": "3.0", "spec_version": spec_version},
        "http_version": http_version,
        "method": method,
        "path": path,
        "raw_path": quote(path.encode("utf8", "surrogatepass")).encode("ascii"),
        "root_path": root_path,
        "scheme": scheme,
        "query_string": query.encode("latin-1") if isinstance(query, str) else query,
        "headers": hdr(headers),
        "client": client,
        "server": server,
        "state": {},
    }
    if extensions is not None:
        s["extensions"] = extensions
    s.update(extra)
    return s


def ws_scope(path="/", headers=(), query="", root_path="", scheme="ws", server=("testserver", 80), subprotocols=(),
             spec_version="2.3", extensions=None, **extra):
    s = http_scope("GET", path, headers, query, root_path, scheme, server, spec_version=spec_version)
    del s["method"]
    s["type"] = "websocket"
    s["subprotocols"] = list(subprotocols)
    if extensions is not None:
        s["extensions"] = extensions
    s.update(extra)
    return s


def snap(message):
    m = {}
    for k, v in message.items():
        if k == "headers":
            try:
                v = [tuple(h) for h in v]
            except Exception:
                pass
        elif isinstance(v, bytearray):
            v = bytes(v)
        elif isinstance(v, memoryview):
            v = bytes(v)
        m[k] = v
    return m


async def checkpoint():
    await anyio.sleep(0)


class Jit:
    """Seeded injection of scheduling points."""

    def __init__(self, seed, level=2):
        self.rng = random.Random(seed)
        self.level = level
        self.count = 0

    async def __call__(self):
        if self.level:
            for _ in range(self.rng.choice((0, 0, 1, 1, 2, 3)[: 2 + 2 * self.level])):
                self.count += 1
                await anyio.sleep(0)


class Trace:
    def __init__(self):
        self.events = []  # ('recv', msg) ('send', msg) ('mark', x) ('raise', exc) ('return', None)
        self.exc = None
        self.returned = False
        self.loop_errors = []
        self.leaked_tasks = 0

    # -- http views
    @property
    def sent(self):
        return [m for k, m in self.events if k == "send"]

    @property
    def start(self):
        for m in self.sent:
            if m["type"] == "http.response.start":
                return m
        return None

    @property
    def status(self):
        return self.start["status"] if self.start else None

    @property
    def headers(self):
        return [(bytes(k), bytes(v)) for k, v in (self.start.get("headers") or [])] if self.start else None

    def header(self, name):
        vals = [v.decode("latin-1") for k, v in self.headers if k.lower() == name.encode("latin-1")]
        return vals[0] if vals else None

    def header_all(self, name):
        return [v.decode("latin-1") for k, v in self.headers if k.lower() == name.encode("latin-1")]

    @property
    def chunks(self):
        return [m.get("body", b"") for m in self.sent if m["type"] == "http.response.body"]

    @property
    def body(self):
        return b"".join(self.chunks)

    @property
    def complete(self):
        bodies = [m for m in self.sent if m["type"] == "http.response.body"]
        return bool(bodies) and not bodies[-1].get("more_body", False)

    def index(self, kind, pred):
        for i, (k, m) in enumerate(self.events):
            if k == kind and pred(m):
                return i
        return -1


class ServerSide:
    """receive/send callables of one connection."""

    def __init__(self, trace: Trace, chunks=((b"", False),), jit=None, disconnect_on_recv=None,
                 disconnect_after_sends=None, send_error_at=None, send_error=OSError, linger=False, on_accept=None, silent=False):
        self.silent = silent  # never report a disconnect after the response
        self.on_accept = on_accept
        self.t = trace
        self.queue = [{"type": "http.request", "body": c, "more_body": m} for c, m in chunks]
        self.jit = jit or Jit(0, 0)
        self.gone = None  # anyio.Event, created inside the loop
        self.nrecv = 0
        self.nsend = 0
        self.disconnect_on_recv = disconnect_on_recv
        self.disconnect_after_sends = disconnect_after_sends
        self.send_error_at = send_error_at
        self.send_error = send_error
        self.complete = False
        self.linger = linger

    def setup(self):
        self.gone = anyio.Event()
        if self.disconnect_after_sends == 0:
            self.gone.set()

    async def receive(self):
        self.nrecv += 1
        await self.jit()
        if self.disconnect_on_recv is not None and self.nrecv > self.disconnect_on_recv:
            self.gone.set()
        if self.gone.is_set() and not (self.queue and self.linger):
            self.queue.clear()
        if self.queue:
            msg = self.queue.pop(0)
        else:
            await self.gone.wait()
            msg = {"type": "http.disconnect"}
        self.t.events.append(("recv", dict(msg)))
        await self.jit()
        return msg

    async def send(self, message):
        await self.jit()
        self.t.events.append(("send", snap(message)))
        if self.on_accept is not None:
            self.on_accept(message)
        self.nsend += 1
        if self.send_error_at is not None and self.nsend > self.send_error_at:
            raise self.send_error("connection lost")
        if message["type"] == "http.response.body" and not message.get("more_body", False) and not self.silent:
            self.gone.set()
        if self.disconnect_after_sends is not None and self.nsend >= self.disconnect_after_sends:
            self.gone.set()
        await self.jit()


def run_async(backend: str, seed, fn):
    """Run an async function to completion; returns (result, loop_errors)."""
    errors = []
    if backend == "trio":
        if _TR is not None:
            _TR.seed(str(seed))
        return anyio.run(fn, backend="trio"), errors

    async def main():
        loop = asyncio.get_running_loop()
        loop.set_exception_handler(lambda lp, ctx: errors.append(ctx))
        return await fn()

    return anyio.run(main, backend="asyncio"), errors


async def call_app(app, scope, server: ServerSide, trace: Trace):
    server.setup()
    try:
        await app(scope, server.receive, server.send)
        trace.returned = True
        trace.events.append(("return", None))
    except BaseException as exc:  # noqa
        from vp.engine import _contains_timeout

        if _contains_timeout(exc) or isinstance(exc, (anyio.get_cancelled_exc_class(), KeyboardInterrupt)):
            raise
        trace.exc = exc
        trace.events.append(("raise", exc))


def drive(app, scope, chunks=((b"", False),), backend="asyncio", seed=0, jitter=0, **kw) -> Trace:
    trace = Trace()

    async def main():
        server = ServerSide(trace, chunks, Jit(seed, jitter), **kw)
        await call_app(app, scope, server, trace)
        if backend == "asyncio":
            # finalisers of abandoned async generators are short-lived tasks of the loop itself
            for _ in range(20):
                await asyncio.sleep(0)
                trace.leaked_tasks = sum(1 for t in asyncio.all_tasks() if t is not asyncio.current_task() and not t.done())
                if not trace.leaked_tasks:
                    break

    _, trace.loop_errors = run_async(backend, seed, main)
    return trace


# ------------------------------------------------------------------ protocol monitor
def http_protocol(trace: Trace, mon, prefix="", method="GET", expect_complete=True, check_length=True):
    """Trace monitor for the response half of the ASGI HTTP protocol.  Returns True if
    no violation was seen."""
    state = "init"
    ok = True
    total = 0
    declared = None
    nlen = 0

    def bad(key, msg):
        nonlocal ok
        ok = False
        mon.fail(prefix + key, msg)

    status = None
    for i, (kind, m) in enumerate(trace.events):
        if kind != "send":
            continue
        mon.n("ASGI messages monitored")
        t = m.get("type")
        if t == "http.response.debug":
            if state != "init":
                bad("debug-after-start", f"debug message in state {state}")
            continue
        if t == "http.response.push":
            if state == "done":
                bad("push-after-end", "server push promised after the end of the response")
            continue
        if t == "http.response.start":
            if state != "init":
                bad("second-start", f"http.response.start sent in state {state}")
            state = "started"
            status = m.get("status")
            if not (isinstance(status, int) and 100 <= status <= 999):
                bad("bad-status", f"status is {status!r}")
            hs = m.get("headers") or []
            for h in hs:
                if not (len(h) == 2 and isinstance(h[0], bytes) and isinstance(h[1], bytes)):
                    bad("bad-header", f"header {h!r} is not a pair of byte strings")
                elif h[0] != h[0].lower():
                    bad("header-case", f"header name {h[0]!r} is not lower-case")
                elif h[0] == b"content-length":
                    nlen += 1
                    try:
                        declared = int(h[1])
                    except ValueError:
                        bad("bad-content-length", f"content-length is {h[1]!r}")
            if nlen > 1:
                bad("duplicate-content-length", f"{hs!r}")
        elif t == "http.response.body":
            if state == "init":
                bad("body-before-start", "http.response.body sent before http.response.start")
            elif state == "done":
                bad("body-after-end", f"http.response.body sent after the final body message: {str(m)[:200]}")
            b = m.get("body", b"")
            if not isinstance(b, (bytes, bytearray, memoryview)):
                bad("body-type", f"body is {type(b)}")
            total += len(b)
            if not m.get("more_body", False):
                state = "done"
        else:
            bad("unknown-message", f"unexpected message type {t!r}")
    if expect_complete and trace.exc is None and state != "done":
        bad("incomplete", f"the application returned without completing the response (state {state})")
    if check_length and declared is not None and state == "done" and trace.exc is None:
        if method != "HEAD" and status not in (304,):
            if declared != total:
                bad("content-length-mismatch", f"content-length {declared} but {total} body bytes were sent (status {status})")
        elif total not in (0, declared):
            bad("content-length-mismatch", f"content-length {declared} but {total} body bytes were sent ({method} {status})")
    return ok


def no_leaks(trace: Trace, mon, prefix=""):
    if trace.leaked_tasks:
        mon.fail(prefix + "leaked-task", f"{trace.leaked_tasks} tasks were still running after the application returned")
    for ctx in trace.loop_errors:
        mon.fail(prefix + "loop-error", f"event loop reported: {ctx.get('message')} {ctx.get('exception')!r}")


# ------------------------------------------------------------------ random chunking
def chunking(rng: random.Random, n: int, style=None):
    """Random partition of range(n) into message chunks: list of sizes (may hold 0)."""
    style = style or rng.choice(["one", "few", "few", "bytes", "blocks", "empties"])
    if style == "one" or n == 0 and style != "empties":
        return [n]
    if style == "bytes" and n <= 400:
        return [1] * n
    if style == "blocks":
        b = rng.choice([1, 2, 7, 64, 1000, 65536, 65535])
        if n / b > 2000:
            b = max(b, n // 500 + 1)
        out = [b] * (n // b)
        if n % b:
            out.append(n % b)
        return out or [0]
    cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randrange(1, 6)))
    out, prev = [], 0
    for c in cuts + [n]:
        out.append(c - prev)
        prev = c
    if style == "empties":
        for _ in range(rng.randrange(1, 4)):
            out.insert(rng.randrange(len(out) + 1), 0)
    return out


def split_body(body: bytes, sizes, trailing_empty=False):
    """-> [(chunk, more_body)]"""
    out, pos = [], 0
    for s in sizes:
        out.append(body[pos : pos + s])
        pos += s
    assert pos == len(body), (pos, len(body), sizes)
    if trailing_empty:
        out.append(b"")
    return [(c, i < len(out) - 1) for i, c in enumerate(out)]
