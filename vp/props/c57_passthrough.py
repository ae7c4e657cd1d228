from __future__ import annotations

import copy
import gzip
import random

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthenticationBackend
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

from vp import gens
from vp.asgi import Jit, http_scope, run_async, ws_scope

ID = "C57"
PROP = dict(
    title="What Starlette does not interpret passes through it unchanged, both ways",
    statement=(
        "Between the server and an ASGI application inside any composition of routers, mounts, hosts, applications and shipped middleware (BaseHTTPMiddleware, which answers HTTP itself, only for other connections): every scope key and extension the server provides arrives as it is, whatever middleware adds beside it; "
        "each call of receive yields the server's next message, unaltered, and asks the server for no more; and each message sent - of the response, of a WebSocket, of an extension (push, early hints, debug, trailers, path send, ...), or of a type Starlette has never heard of - reaches the server once, in order, with its keys and values, "
        "apart from the headers and compressed body that a middleware is documented to change. Connections of other types (lifespan, unknown ones) pass every middleware untouched. Nothing is sent or received that the application did not send or ask for."
    ),
    over=["inputs", "programs", "configurations", "histories"],
    quant="every composition, connection type, message sequence, message type, and set of extra keys of scopes and messages",
    why="tests exchange the messages of the core protocol with the keys Starlette knows; servers and applications use extensions, and a layer in between must not lose them",
    files=["starlette/middleware/", "starlette/routing.py", "starlette/applications.py", "starlette/_exception_handler.py"],
    mechanism=[("GZipMiddleware forwards", "starlette/middleware/gzip.py:IdentityResponder.send_with_compression"), ("CORS forwards", "starlette/middleware/cors.py:CORSMiddleware.send"), ("session forwards", "starlette/middleware/sessions.py"), ("routing keeps the scope", "starlette/routing.py:Mount.matches"), ("exception layers forward", "starlette/_exception_handler.py:wrap_app_handling_exceptions")],
)
TECH = "runtime monitoring: an application and a server at both ends record every scope key and message; a trace checker compares the two logs one to one, with each middleware's documented edits as the only differences"
RULE = "each case is a composition of layers, a connection type, and scripted messages of both directions with extra keys; non-trivial when the application was reached and both logs compared"
LEVEL_NOTE = "held on the generated compositions and scripts"
BUDGET = {"quick": (60000, 12), "thorough": (800000, 200)}
REQUIRED = ("messages to the server", "messages from the server", "scope keys", "extension messages", "unknown messages", "http", "websockets", "other connections", "compressed responses", "path sends", "trailers", "starts with a session cookie")

LAYERS = ["cors", "cors-any", "session", "gzip", "gzip0", "host", "https", "auth", "exc", "err", "base", "mount", "mountp", "hostroute", "router", "starlette", "route"]
KINDS = ["http", "http", "http", "ws", "lifespan", "custom"]


def fixed(tier):
    out = []
    i = 0
    for kind in ("http", "ws", "lifespan", "custom"):
        for layer in LAYERS:
            for script in range(12):
                i += 1
                out.append(dict(kind=kind, layers=[layer], seed=script * 1000 + i, script=script, enc=i % 2 == 0, backend="asyncio", jit=0))
    return out


def gen(rng, tier):
    return dict(kind=rng.choice(KINDS), layers=[rng.choice(LAYERS) for _ in range(rng.choice([0, 1, 2, 3, 5]))], seed=rng.randrange(10**9), script=rng.randrange(12), enc=rng.random() < 0.6, backend=gens.backend(rng), jit=rng.choice([0, 0, 1]))


class Opaque:
    """A value nothing in between can know: it must arrive as the same object."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Opaque({self.n})"

    def __deepcopy__(self, memo):
        return self


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        return None


class Inner:
    """The application at the end: an instance, so that routes take it as an ASGI application."""

    def __init__(self, script, log, expect_recv, jit, rng):
        self.script, self.log, self.n, self.jit, self.rng = script, log, expect_recv, jit, rng

    async def __call__(self, scope, receive, send):
        self.log["scope"] = dict(scope)
        self.log["type"] = scope["type"]
        reads = self.n
        if "session" in scope and self.rng.random() < 0.5:
            scope["session"]["a"] = 1
            self.log["session"] = True
        for m in self.script:
            while reads and self.rng.random() < 0.5:
                reads -= 1
                self.log["received"].append(await receive())
            self.log["sent"].append(copy.deepcopy(m))
            self.log["ends"].append(("app", m["type"]))
            await send(m)
            await self.jit()
        for _ in range(reads):
            self.log["received"].append(await receive())
        self.log["done"] = True


def extras(rng, n=2):
    return {f"{rng.choice(['x', 'vendor.x', 'ext', 'zz'])}{i}": rng.choice([1, None, "v", b"b", [1, 2], {"a": [1]}, Opaque(rng.randrange(99)), True]) for i in range(rng.randrange(n + 1))}


def http_script(kind, rng, enc):
    ct = rng.choice(["text/plain", "application/json", "text/event-stream", None])
    hs = [] if ct is None else [(b"content-type", ct.encode())]
    for _ in range(rng.randrange(3)):
        hs.append(rng.choice([(b"x-a", b"1"), (b"x-a", b"2"), (b"vary", b"X"), (b"set-cookie", b"a=b"), (b"set-cookie", b"c=d"), (b"link", b"</a>"), (b"trailer", b"x-t"), (b"content-encoding", b"br")]))
    if rng.random() < 0.7:
        start = {"type": "http.response.start", "status": rng.choice([200, 201, 206, 404, 500]), "headers": hs, **extras(rng)}
    else:
        start = {"type": "http.response.start", "status": 200, "headers": hs}
        if rng.random() < 0.3:
            start.pop("headers")
    sizes = rng.choice([[0], [5], [700], [5, 5], [700, 0, 700], [0, 0], [3, 900, 1], [600, 600]])
    bodies = [{"type": "http.response.body", "body": rng.choice([b"a", b"bc"]) * n, "more_body": i < len(sizes) - 1, **extras(rng, 1)} for i, n in enumerate(sizes)]
    if rng.random() < 0.3:
        bodies[-1].pop("more_body")
    if rng.random() < 0.2:
        bodies[-1].pop("body")
    push = {"type": "http.response.push", "path": "/p", "headers": [(b"a", b"b")], **extras(rng)}
    hint = {"type": "http.response.early_hint", "links": [b"</a>; rel=preload"], **extras(rng)}
    debug = {"type": "http.response.debug", "info": {"template": Opaque(1)}}
    trailers = {"type": "http.response.trailers", "headers": [(b"x-t", b"1")], "more_trailers": False}
    unknown = {"type": rng.choice(["http.response.future", "vendor.thing", "http.response.starting", "http.response.bodyguard"]), **extras(rng, 3)}
    if kind == 0:
        return [start, *bodies]
    if kind == 1:
        return [push, start, push, *bodies]
    if kind == 2:
        return [hint, hint, start, *bodies]
    if kind == 3:
        return [debug, start, *bodies]
    if kind == 4:
        return [dict(start, trailers=True), *bodies, trailers]
    if kind == 5:
        return [dict(start, trailers=True), *bodies, dict(trailers, more_trailers=True), trailers]
    if kind == 6:
        return [start, {"type": "http.response.pathsend", "path": "/tmp/x", **extras(rng)}]
    if kind == 7:
        return [unknown, start, *bodies, unknown]
    if kind == 8:
        out = [start, *bodies]
        for _ in range(3):
            out.insert(rng.randrange(len(out) + 1), rng.choice([copy.deepcopy(unknown), copy.deepcopy(push)]))
        return out
    if kind == 9:
        return [unknown]
    if kind == 10:
        return [hint, start, {"type": "http.response.zerocopysend", "file": Opaque(7), "offset": 3, "count": 9, "more_body": False}]
    out = [start]
    for b in bodies:
        out += [b, copy.deepcopy(unknown)]
    return out


def ws_script(kind, rng):
    accept = {"type": "websocket.accept", "subprotocol": rng.choice([None, "p"]), "headers": [(b"x", b"1")], **extras(rng)}
    if rng.random() < 0.3:
        accept = {"type": "websocket.accept", **extras(rng)}
    data = [rng.choice([{"type": "websocket.send", "text": "t", "bytes": None}, {"type": "websocket.send", "bytes": b"b"}, {"type": "websocket.send", "text": "u", **extras(rng)}]) for _ in range(rng.randrange(4))]
    close = {"type": "websocket.close", "code": rng.choice([1000, 3000, 4999]), "reason": rng.choice([None, "", "r"]), **extras(rng)}
    unknown = {"type": rng.choice(["websocket.ping", "websocket.future", "vendor.thing"]), **extras(rng)}
    denial = [{"type": "websocket.http.response.start", "status": 403, "headers": [(b"x", b"1")], **extras(rng)}, {"type": "websocket.http.response.body", "body": b"no", **extras(rng)}]
    return [[accept, *data, close], [close], denial, [unknown, accept, unknown, *data, close], [accept, *data], [accept, unknown, *[copy.deepcopy(x) for x in data], unknown]][kind % 6]


def other_script(kind, rng):
    t = ["lifespan.startup.complete", "lifespan.startup.failed", "lifespan.shutdown.complete", "vendor.x", "http.response.start", "http.response.body"]
    return [{"type": t[(kind + i) % 6], **extras(rng, 3)} for i in range(rng.randrange(4))]


def inbound(kind, rng):
    if kind == "http":
        n = rng.randrange(4)
        out = [{"type": "http.request", "body": b"x" * rng.randrange(5), "more_body": i < n - 1, **extras(rng)} for i in range(n)]
        if rng.random() < 0.3:
            out.append({"type": "vendor.inbound", **extras(rng, 3)})
        return out
    if kind == "ws":
        out = [{"type": "websocket.connect", **extras(rng)}]
        for _ in range(rng.randrange(4)):
            out.append(rng.choice([{"type": "websocket.receive", "text": "t", "bytes": None, **extras(rng)}, {"type": "websocket.receive", "bytes": b"", **extras(rng)}, {"type": "websocket.pong", "payload": Opaque(3)}]))
        if rng.random() < 0.5:
            out.append({"type": "websocket.disconnect", "code": 1001, "reason": "r", **extras(rng)})
        return out
    return [{"type": f"{kind}.{i}", **extras(rng, 3)} for i in range(rng.randrange(4))]


ROUTING = ("mount", "mountp", "hostroute", "router", "starlette", "route")


def compose(case, inner):
    app = inner
    root = ""
    http = case["kind"] == "http"
    routed = case["kind"] in ("http", "ws")
    used = []
    prefix = []
    layers = [x for x in case["layers"] if (routed or x not in ROUTING) and not (http and x == "base")]
    for layer in reversed(layers):
        used.append(layer)
        if layer == "cors":
            app = CORSMiddleware(app, allow_origins=["https://a.org"], allow_credentials=True)
        elif layer == "cors-any":
            app = CORSMiddleware(app, allow_origins=["*"], expose_headers=["x-a"])
        elif layer == "session":
            app = SessionMiddleware(app, secret_key="k")
        elif layer == "gzip":
            app = GZipMiddleware(app)
        elif layer == "gzip0":
            app = GZipMiddleware(app, minimum_size=0, compresslevel=1)
        elif layer == "host":
            app = TrustedHostMiddleware(app, allowed_hosts=["*.org", "a.net"])
        elif layer == "https":
            app = HTTPSRedirectMiddleware(app)
        elif layer == "auth":
            app = AuthenticationMiddleware(app, backend=Backend())
        elif layer == "exc":
            app = ExceptionMiddleware(app)
        elif layer == "err":
            app = ServerErrorMiddleware(app)
        elif layer == "base":

            async def dispatch(request, call_next):
                raise AssertionError("dispatch was run for another connection than HTTP")

            app = BaseHTTPMiddleware(app, dispatch=dispatch)
        elif layer == "mount":
            app = Router([Mount("/m", app)])
            prefix.append("/m")
        elif layer == "mountp":
            app = Router([Mount("/{p}", app)])
            prefix.append("/pp")
        elif layer == "hostroute":
            app = Router([Host("{h}.org", app)])
        elif layer == "router":
            app = Router([Mount("", app)])
        elif layer == "starlette":
            app = Starlette(routes=[Mount("/", app)], middleware=[Middleware(SessionMiddleware, secret_key="q", session_cookie="q")])
            used.append("session")
        elif layer == "route":
            # a Route keeps the path, and takes an instance as an ASGI application
            cls = Route if http else WebSocketRoute
            app = Router([cls("/{rest:path}", app)])
    return app, "".join(reversed(prefix)), used


def content(m):
    return m["type"] in ("http.response.body", "http.response.pathsend", "http.response.zerocopysend")


def delay_start(msgs):
    """The order with the start of the response moved to where its content begins: a compressing layer may only then know its headers."""
    out, start = [], None
    for m in msgs:
        if m["type"] == "http.response.start":
            start = m
        else:
            if content(m) and start is not None:
                out.append(start)
                start = None
            out.append(m)
    return out


def same(a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and type(a) is type(b)


def run(case, mon):
    rng = random.Random(case["seed"])
    kind = case["kind"]
    script = copy.deepcopy(http_script(case["script"], rng, case["enc"]) if kind == "http" else ws_script(case["script"], rng) if kind == "ws" else other_script(case["script"], rng))
    incoming = inbound(kind, rng)
    log = dict(scope=None, received=[], sent=[], ends=[], done=False)
    inner = Inner(script, log, rng.randrange(len(incoming) + 1), Jit(case["seed"], case["jit"]), random.Random(case["seed"] + 1))
    app, prefix, used = compose(case, inner)
    hs = [("host", "a.org"), ("origin", "https://a.org"), ("x-dup", "1"), ("x-dup", "2")] + ([("accept-encoding", "gzip")] if case["enc"] else [])
    ext = {"http.response.push": {}, "http.response.pathsend": {}, "vendor": {"a": Opaque(5)}, "websocket.http.response": {}}
    path = prefix + "/x"
    if kind == "http":
        scope = http_scope(rng.choice(["GET", "POST", "PURGE"]) if "route" not in case["layers"] else "GET", path, hs, scheme="https", extensions=ext)
    elif kind == "ws":
        scope = ws_scope(path, hs, scheme="wss", extensions=ext)
    else:
        scope = {"type": "lifespan" if kind == "lifespan" else "vendor.custom", "asgi": {"version": "3.0"}, "headers": [(b"host", b"evil.com")], "state": {}}
    more = {f"vendor.{i}": v for i, v in enumerate([Opaque(1), [1], {"a": Opaque(2)}, None, ""])}
    scope.update(more, **{"tls": {"version": 1, "x": Opaque(3)}})
    given = dict(scope)
    before = copy.deepcopy(given)
    got = []
    asked = []
    wire = copy.deepcopy(incoming)

    async def main():
        async def receive():
            asked.append(1)
            if len(asked) > len(incoming):
                await anyio.sleep_forever()
            return incoming[len(asked) - 1]

        async def send(m):
            got.append(copy.deepcopy(m))
            log["ends"].append(("server", m["type"]))

        with anyio.fail_after(15):
            await app(scope, receive, send)

    _, errors = run_async(case["backend"], case["seed"], main)
    mon.ok(not errors, "loop-error", f"{errors}")
    mon.ok(log["done"], "not-reached", f"the application was not reached, the server got {got}")
    if not log["done"]:
        return
    mon.n({"http": "http", "ws": "websockets"}.get(kind, "other connections"))
    # the scope
    for k, v in given.items():
        if k in ("path", "root_path", "headers", "state", "path_params", "app"):
            continue
        mon.n("scope keys")
        mon.ok(k in log["scope"] and same(log["scope"][k], before[k]), "scope", f"the server's scope held {k!r}: {before[k]!r}, the application saw {log['scope'].get(k, 'nothing')!r}")
    mon.ok(same(list(log["scope"]["headers"]), before["headers"]), "scope-headers", f"the headers {before['headers']} arrived as {log['scope']['headers']}")
    if kind in ("http", "ws"):
        mon.eq(log["scope"]["path"], path, "scope-path", "the path")
        mon.eq(log["scope"]["root_path"], prefix, "scope-root-path", "the root path")
    else:
        added = set(log["scope"]) - set(given)
        mon.ok(not added, "scope-added", f"a connection of another type got scope keys added: {added}")
    # receiving
    mon.n("messages from the server", len(log["received"]))
    mon.ok(len(asked) == len(log["received"]), "asked", f"the application received {len(log['received'])} messages, the server was asked for {len(asked)}")
    for a, b in zip(wire, log["received"]):
        mon.ok(same(a, b), "received", f"the server's message {a} arrived as {b}")
    # sending
    mon.n("messages to the server", len(got))
    zips = [x for x in used if x.startswith("gzip")] if kind == "http" else []
    want = delay_start(log["sent"]) if zips else log["sent"]
    have = delay_start(got) if zips else got
    mon.ok([m["type"] for m in want] == [m["type"] for m in have], "sequence", f"the application sent {[m['type'] for m in want]}, the server got {[m['type'] for m in have]}")
    if zips:
        # a start goes out as soon as there is content, and nothing goes out of order otherwise
        mon.ok([m["type"] for m in got] == [m["type"] for m in want], "start-late", f"behind GZipMiddleware the application's {[m['type'] for m in log['sent']]} reached the server as {[m['type'] for m in got]}")
    compressed = False
    for a, b in zip(want, have):
        t = a["type"]
        if t not in ("http.response.start", "http.response.body"):
            mon.n("extension messages")
            if t == "http.response.pathsend":
                mon.n("path sends")
            elif t == "http.response.trailers":
                mon.n("trailers")
            elif "future" in t or "vendor" in t or "ing" in t or "guard" in t:
                mon.n("unknown messages")
        if kind == "http" and t == "http.response.start":
            mon.n("starts with a session cookie", bool(log.get("session")))
            x, y = [(bytes(k), bytes(v)) for k, v in a.get("headers", [])], [(bytes(k), bytes(v)) for k, v in b.get("headers", [])]
            compressed = bool(zips) and (b"content-encoding", b"gzip") in y and (b"content-encoding", b"gzip") not in x
            free = set()
            if any(u.startswith("cors") for u in used) or zips:
                free.add(b"vary")
            if zips:
                free |= {b"content-length", b"content-encoding"} if compressed else set()
            rest = list(y)
            for h in x:
                if h[0] not in free:
                    if h in rest:
                        rest.remove(h)
                    else:
                        mon.fail("header-lost", f"the response header {h} was lost behind {used}: {y}")
            may = free | ({b"set-cookie"} if log.get("session") else set())
            extra = [h for h in rest if h[0] not in may and not (h[0].startswith(b"access-control-") and any(u.startswith("cors") for u in used))]
            mon.ok(not extra, "header-added", f"response headers that nobody set: {extra} behind {used}")
            order = [h for h in y if h in x and h[0] not in free]
            mon.ok(order == [h for h in x if h[0] not in free] or len(set(x)) != len(x), "header-order", f"the headers {x} reached the server as {y}")
            a, b = {k: v for k, v in a.items() if k != "headers"}, {k: v for k, v in b.items() if k != "headers"}
        elif kind == "http" and t == "http.response.body" and compressed:
            mon.n("compressed responses")
            mon.ok(isinstance(b.get("body"), bytes) and a.get("more_body", False) == b.get("more_body", False), "more-body", f"{a} arrived as {b}")
            a, b = ({k: v for k, v in m.items() if k not in ("body", "more_body")} for m in (a, b))
        elif t == "http.response.body" and zips:
            # a compressing layer may spell out a default of the message
            a, b = ({"body": b"", "more_body": False, **m} for m in (a, b))
        mon.ok(same(a, b), "sent", f"the application's message {a} reached the server as {b} behind {used}")
    if compressed:
        data = b"".join(m.get("body", b"") for m in have if m["type"] == "http.response.body")
        plain = b"".join(m.get("body", b"") for m in want if m["type"] == "http.response.body")
        for z in zips[:1]:
            data = gzip.decompress(data)
        mon.ok(data == plain, "compressed-body", f"the compressed body holds {data[:80]!r} instead of {plain[:80]!r}")
    # the server's own objects
    mon.ok(all(same(given[k], before[k]) for k in given), "server-objects", f"the values of the server's scope were changed from {before} to {given}")
    mon.ok(same(incoming, wire), "server-messages", f"the server's messages were changed from {wire} to {incoming}")
    if not zips:
        # without buffering, each message reaches the server before the application's send returns
        ends = log["ends"]
        mon.ok(all(ends[i][0] == "app" and ends[i + 1][0] == "server" for i in range(0, len(ends) - 1, 2)) and len(ends) % 2 == 0, "held-back", f"messages were held back or sent ahead: {ends}")
    mon.nontrivial(kind, case["layers"], case["script"], case["seed"] % 7)
