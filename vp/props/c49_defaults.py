from __future__ import annotations

import asyncio
import inspect
import json
import os
import time
import warnings
import zlib
from datetime import datetime, timezone

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.config import Config, Environ
from starlette.datastructures import URL, FormData, Headers, ImmutableMultiDict, MultiDict, MutableHeaders, QueryParams, State, UploadFile
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.formparsers import FormParser, MultiPartException, MultiPartParser
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.testclient import TestClient
from starlette.websockets import WebSocket, WebSocketClose, WebSocketDisconnect

from vp import gens
from vp.asgi import Trace, drive, http_protocol, http_scope, run_async, snap, ws_scope

ID = "C49"
PROP = dict(
    title="What is left out takes its documented default",
    statement=(
        "Leaving out any of the optional arguments of a class, method, function or decorator behaves exactly as passing its documented default - status 200 (307 for redirects, 403 for requires), cookies with path / and SameSite lax, CORS for GET only and 600 seconds, sessions of 14 days in a cookie named session, gzip from 500 bytes at level 9, "
        "forms of 1000 files, 1000 fields and 1 MiB per part, routes for GET named after their endpoint and included in the schema, slash redirects, a test client at http://testserver that follows redirects and raises exceptions, templates with autoescaping, closing a WebSocket with 1000, and so on - whatever the other arguments are and whether those are given by name or, in their documented order, by position. "
        "The same holds for the keys ASGI lets a server or an application leave out: a scope without scheme, root_path, client, server, state, extensions or subprotocols and messages without body, more_body or headers are handled as if their defaults had been given, by every middleware and response."
    ),
    over=["configurations", "inputs"],
    quant="every subset of optional arguments of every public constructor, method and decorator, with default or other values for the rest; every subset of the optional keys of scopes and messages through every stack of middleware",
    why="tests set the arguments they are about and never look at the others' defaults",
    files=["starlette/responses.py", "starlette/requests.py", "starlette/formparsers.py", "starlette/websockets.py", "starlette/middleware/cors.py", "starlette/middleware/gzip.py", "starlette/middleware/sessions.py", "starlette/middleware/trustedhost.py", "starlette/middleware/base.py", "starlette/routing.py", "starlette/applications.py", "starlette/staticfiles.py", "starlette/templating.py", "starlette/testclient.py", "starlette/authentication.py", "starlette/exceptions.py", "starlette/datastructures.py", "starlette/config.py", "starlette/schemas.py", "starlette/background.py"],
    mechanism=[("cookies", "starlette/responses.py:Response.set_cookie"), ("forms", "starlette/requests.py:Request.form"), ("CORS", "starlette/middleware/cors.py:CORSMiddleware.__init__"), ("routes", "starlette/routing.py:Route.__init__"), ("test client", "starlette/testclient.py:TestClient.__init__")],
)
TECH = "runtime monitoring: differential observation of the real code with arguments (or message and scope keys) left out and with their documented defaults given"
RULE = "each case is one callable and a choice of which arguments are left out, given as documented or varied; non-trivial when two observations, at least one argument apart, were compared"
LEVEL_NOTE = "held on the generated argument subsets; what the defaults mean is decided by the property of each feature, which passes them explicitly"
BUDGET = {"quick": (40000, 14), "thorough": (600000, 200)}
REQUIRED = ("comparisons", "left out", "by position", "responses", "cookies", "cors", "sessions", "gzip", "static", "forms", "routes", "websockets", "test clients", "templates", "exceptions", "config", "uploads", "hosts", "auth", "scopes", "messages")

FILES = {}


def worker_setup(mon):
    os.makedirs("df/sub", exist_ok=True)
    os.makedirs("df/tpl", exist_ok=True)
    d = FILES["d"] = os.path.abspath("df")
    for n, c in (("f.txt", b"file content"), ("f.bin", b"\x00\x01"), ("sub/index.html", b"<p>index"), ("404.html", b"<p>missing"), ("page.html.gz", b"zz")):
        with open(os.path.join(d, n), "wb") as f:
            f.write(c)
    with open("outside.txt", "w") as f:
        f.write("outside")
    link = os.path.join(d, "link.txt")
    if not os.path.lexists(link):
        os.symlink(os.path.abspath("outside.txt"), link)
    with open(os.path.join(d, "tpl", "t.html"), "w") as f:
        f.write("{{ x }}|{{ y }}|{{ request.url.path }}|{{ '<b>' }}")
    with open("def.env", "w") as f:
        f.write("FILEKEY=fromfile\nPRE_K=prefixed\nNUM=5\n")


# ------------------------------------------------------------------ helpers
def norm(t):
    """What a server saw."""
    hs = sorted((bytes(k), bytes(v)) for k, v in (t.headers or [])) if t.start else None
    return [t.status if t.start else None, [(k.decode("latin-1"), v.decode("latin-1")) for k, v in hs] if hs is not None else None, bytes(t.body), t.complete, repr(t.exc)]


def get(app, path="/", method="GET", headers=(), chunks=((b"", False),), query=b"", **kw):
    hs = [("host", "testserver")] + list(headers) if not any(k == "host" for k, _ in headers) else list(headers)
    return norm(drive(app, http_scope(method, path, hs, query, **kw), chunks))


def ws_run(app, inbox, path="/", **kw):
    """-> [messages, outcome] of a WebSocket session with these messages from the server."""
    sent = []
    out = []

    async def main():
        box = [{"type": "websocket.connect"}] + list(inbox)

        async def receive():
            return box.pop(0) if box else {"type": "websocket.disconnect", "code": 1005}

        async def send(m):
            sent.append(snap(m))

        try:
            with anyio.fail_after(10):
                await app(ws_scope(path, [("host", "h")], **kw), receive, send)
            out.append("returned")
        except Exception as exc:
            out.append(repr(exc))

    run_async("asyncio", 0, main)
    return [[m["type"], m.get("code"), m.get("reason"), m.get("text"), m.get("bytes"), m.get("subprotocol"), sorted(m.get("headers") or []), m.get("status"), m.get("body")] for m in sent] + out


class Ran:
    """A background task which counts."""

    def __init__(self):
        self.n = 0

    async def __call__(self):
        self.n += 1


SPECS = {}


def spec(name, counter, params, positional=None):
    """params: {name: (documented default, other values)}; a default of REQUIRED_ARG has none.
    positional: the documented order."""

    def deco(fn):
        SPECS[name] = dict(fn=fn, params=params, positional=positional or [], counter=counter)
        return fn

    return deco


# ------------------------------------------------------------------ responses
HDRS = (None, [{"x-a": "1"}, {"content-type": "x/y"}, {"Content-Length": "3"}, {}])
RESP = dict(status_code=(200, [201, 204, 404, 304]), headers=HDRS, media_type=(None, ["text/x", "application/json", ""]))
for _n, _cls, _content in (("Response", Response, "text"), ("HTMLResponse", HTMLResponse, "<p>"), ("PlainTextResponse", PlainTextResponse, "tést"), ("JSONResponse", JSONResponse, {"a": [1, None, "é"]})):

    def _mk(cls, content):
        def obs(a, k):
            return get(cls(content, *a, **k))

        return obs

    spec(_n, "responses", dict(RESP), ["status_code", "headers", "media_type"])(_mk(_cls, _content))


@spec("Response()", "responses", dict(content=(None, ["x", b"y"])), ["content"])
def _(a, k):
    return get(Response(*a, **k))


@spec("StreamingResponse", "responses", dict(RESP), ["status_code", "headers", "media_type"])
def _(a, k):
    return get(StreamingResponse(iter(["a", b"b"]), *a, **k))


@spec("RedirectResponse", "responses", dict(status_code=(307, [301, 302, 303, 308]), headers=HDRS), ["status_code", "headers"])
def _(a, k):
    return get(RedirectResponse("/é x?a=b", *a, **k))


@spec("FileResponse", "responses", dict(status_code=(200, [404]), headers=HDRS, media_type=(None, ["a/b"]), background=(None, []), filename=(None, ["né.txt", "x.html"]), stat_result=(None, []), content_disposition_type=("attachment", ["inline"])), ["status_code", "headers", "media_type", "background", "filename", "stat_result"])
def _(a, k):
    p = FILES["d"] + "/f.txt"
    return [get(FileResponse(p, *a, **k)), get(FileResponse(FILES["d"] + "/f.bin", *a, **k)), get(FileResponse(p, *a, **k), headers=[("range", "bytes=0-2")]), get(FileResponse(p, *a, **k), method="HEAD")]


COOKIE = dict(value=("", ["v", "a b;"]), max_age=(None, [0, 5]), expires=(None, [10, datetime(2031, 1, 1, tzinfo=timezone.utc), "Thu, 01 Jan 2032 00:00:00 GMT"]), path=("/", ["/x", None]), domain=(None, ["e.org"]), secure=(False, [True]), httponly=(False, [True]), samesite=("lax", ["strict", "none", None]))


class clock:
    """Expires= is computed from the time of day: the two calls compared see the same one."""

    def __enter__(self):
        self.real = time.time
        time.time = lambda: 1_700_000_000.25

    def __exit__(self, *exc):
        time.time = self.real


@spec("set_cookie", "cookies", COOKIE, list(COOKIE))
def _(a, k):
    r = Response("x")
    with clock():
        r.set_cookie("key", *a, **k)
    return get(r)


@spec("delete_cookie", "cookies", dict(path=("/", ["/x"]), domain=(None, ["e.org"]), secure=(False, [True]), httponly=(False, [True]), samesite=("lax", ["strict", None])), ["path", "domain", "secure", "httponly", "samesite"])
def _(a, k):
    r = Response("x")
    with clock():
        r.delete_cookie("key", *a, **k)
    return [v for v in get(r)]


@spec("background", "responses", dict(background=(None, [])))
def _(a, k):
    return [get(c("x", **k)) for c in (Response, JSONResponse, HTMLResponse)] + [get(RedirectResponse("/", **k)), get(StreamingResponse(iter([b"a"]), **k))]


@spec("BackgroundTasks", "responses", dict(tasks=(None, [[]])), ["tasks"])
def _(a, k):
    r = Ran()
    t = BackgroundTasks(*a, **k)
    t.add_task(r)
    t.add_task(r)
    get(Response("x", background=t))
    t2 = BackgroundTasks(*a, **k)
    get(Response("x", background=t2))
    return r.n


# ------------------------------------------------------------------ middleware
CORSP = dict(allow_origins=((), [["*"], ["https://a.org"], ("https://a.org", "https://b.org")]), allow_methods=(("GET",), [["POST", "PUT"], ["*"]]), allow_headers=((), [["X-A"], ["*"]]), allow_credentials=(False, [True]), allow_origin_regex=(None, [r"https://.*\.org"]), expose_headers=((), [["x-e"]]), max_age=(600, [1, 0]))


@spec("CORSMiddleware", "cors", CORSP, list(CORSP))
def _(a, k):
    async def inner(scope, receive, send):
        await PlainTextResponse("in")(scope, receive, send)

    app = CORSMiddleware(inner, *a, **k)
    out = []
    for o in ("https://a.org", "https://c.net"):
        for extra in ((), (("cookie", "a=b"),)):
            out.append(get(app, headers=[("origin", o), *extra]))
        for m in ("GET", "POST", "HEAD", "DELETE"):
            for h in (None, "X-A", "Accept, X-B"):
                out.append(get(app, method="OPTIONS", headers=[("origin", o), ("access-control-request-method", m)] + ([("access-control-request-headers", h)] if h else [])))
    return out


SESS = dict(session_cookie=("session", ["sid"]), max_age=(14 * 24 * 60 * 60, [60, None]), path=("/", ["/x"]), same_site=("lax", ["strict", "none"]), https_only=(False, [True]), domain=(None, ["e.org"]))


@spec("SessionMiddleware", "sessions", SESS, list(SESS))
def _(a, k):
    seen = []

    async def inner(scope, receive, send):
        seen.append(dict(scope["session"]))
        scope["session"].setdefault("n", 1)
        await PlainTextResponse("in")(scope, receive, send)

    app = SessionMiddleware(inner, "secret", *a, **k)
    now = [1_700_000_000.25]
    real = time.time
    time.time = lambda: now[0]
    out = []
    try:
        first = get(app)
        out.append(first)
        cookies = [v for kk, v in first[1] if kk == "set-cookie"]
        pair = cookies[0].split(";")[0] if cookies else "none=1"
        for age in (1, 59, 61, 86400, 14 * 86400 - 1, 14 * 86400 + 1, 15 * 86400, 400 * 86400):
            now[0] = 1_700_000_000.25 + age
            out.append(get(app, headers=[("cookie", pair)], scheme="https")[0])
    finally:
        time.time = real
    return out, seen


@spec("GZipMiddleware", "gzip", dict(minimum_size=(500, [0, 10, 1000]), compresslevel=(9, [1, 5])), ["minimum_size", "compresslevel"])
def _(a, k):
    out = []
    text = bytes((i * i * 31 + i // 7) % 97 + 20 for i in range(3000))
    for n in (0, 9, 10, 499, 500, 501, 1000, 3000):
        for stream in (False, True):

            async def inner(scope, receive, send):
                await (StreamingResponse(iter([text[:n]])) if stream else Response(text[:n], media_type="text/plain"))(scope, receive, send)

            s, h, b, c, e = get(GZipMiddleware(inner, *a, **k), headers=[("accept-encoding", "gzip")])
            if dict(h).get("content-encoding") == "gzip":
                b = [len(b), b[10:], zlib.decompress(b, 31)]  # without the time in its header
            out.append([s, h, b, c, e])
    return out


@spec("TrustedHostMiddleware", "hosts", dict(allowed_hosts=(["*"], [["e.org"], ["www.e.org", "*.f.org"]]), www_redirect=(True, [False])), ["allowed_hosts", "www_redirect"])
def _(a, k):
    async def inner(scope, receive, send):
        await PlainTextResponse("in")(scope, receive, send)

    app = TrustedHostMiddleware(inner, *a, **k)
    return [get(app, "/p", headers=[("host", h)]) for h in ("e.org", "www.e.org", "x.f.org", "other.net", "e.org:80")]


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        a = conn.headers.get("authorization")
        if a == "bad":
            raise AuthenticationError("bad <credentials>")
        if a:
            return AuthCredentials(a.split(",")), SimpleUser("ann")
        return None


@spec("AuthenticationMiddleware", "auth", dict(on_error=(None, [])))
def _(a, k):
    async def inner(scope, receive, send):
        await PlainTextResponse(repr((scope["auth"].scopes, scope["user"].is_authenticated, scope["user"].display_name)))(scope, receive, send)

    app = AuthenticationMiddleware(inner, Backend(), *a, **k)
    return [get(app, headers=[("authorization", h)] if h else []) for h in (None, "bad", "a,b")]


@spec("requires", "auth", dict(status_code=(403, [404, 401]), redirect=(None, ["login"])), ["status_code", "redirect"])
def _(a, k):
    deco = requires("admin", *a, **k)

    @deco
    async def f(request):
        return PlainTextResponse("async")

    @deco
    def g(request):
        return PlainTextResponse("sync")

    class C(HTTPEndpoint):
        @deco
        async def get(self, request):
            return PlainTextResponse("class")

    @deco
    async def w(websocket):
        await websocket.accept()
        await websocket.close()

    async def login(request):
        return PlainTextResponse("login")

    app = Starlette(routes=[Route("/f", f), Route("/g", g), Route("/c", C), WebSocketRoute("/w", w), Route("/l", login, name="login")], middleware=[Middleware(AuthenticationMiddleware, backend=Backend())])
    return [get(app, p, headers=[("authorization", h)] if h else []) for p in ("/f", "/g", "/c") for h in (None, "admin", "other")] + [ws_run(app, [], "/w")]


@spec("AuthCredentials", "auth", dict(scopes=(None, [["a"], ["a", "b"]])), ["scopes"])
def _(a, k):
    x = AuthCredentials(*a, **k)
    y = AuthCredentials(*a, **k)
    x.scopes = [*x.scopes, "z"]
    return x.scopes, y.scopes


@spec("ServerErrorMiddleware", "exceptions", dict(handler=(None, []), debug=(False, [True])), ["handler", "debug"])
def _(a, k):
    async def inner(scope, receive, send):
        raise ValueError("marker-0001")

    s, h, b, c, e = get(ServerErrorMiddleware(inner, *a, **k))
    return s, [x for x in h if x[0] != "content-length"], b"marker-0001" in b, b[:30], c, e


@spec("ExceptionMiddleware", "exceptions", dict(handlers=(None, [{}]), debug=(False, [True])), ["handlers", "debug"])
def _(a, k):
    out = []
    for exc in (HTTPException(404), HTTPException(204), ValueError("x")):

        async def inner(scope, receive, send):
            raise exc

        out.append(get(ExceptionMiddleware(inner, *a, **k)))
    return out


@spec("HTTPException", "exceptions", dict(detail=(None, ["why", ""]), headers=(None, [{"x-h": "1"}])), ["detail", "headers"])
def _(a, k):
    out = []
    for code in (400, 404, 418, 204, 503):
        e = HTTPException(code, *a, **k)

        async def inner(request):
            raise e

        out += [e.status_code, e.detail, e.headers, str(e), repr(e), get(Starlette(routes=[Route("/", inner)]))]
    return out


@spec("WebSocketException", "exceptions", dict(reason=("", ["why"])), ["reason"])
def _(a, k):
    e = WebSocketException(4001, *a, **k)

    async def inner(websocket):
        await websocket.accept()
        raise e

    return [e.code, e.reason, str(e), repr(e), ws_run(Starlette(routes=[WebSocketRoute("/", inner)]), [])]


@spec("Middleware-base", "responses", dict(dispatch=(None, [])))
def _(a, k):
    class M(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            r = await call_next(request)
            r.headers["x-m"] = "1"
            return r

    return get(M(PlainTextResponse("x"), **k))


# ------------------------------------------------------------------ static files
@spec("StaticFiles", "static", dict(packages=(None, []), html=(False, [True]), check_dir=(True, [False]), follow_symlink=(False, [True])))
def _(a, k):
    app = StaticFiles(directory=FILES["d"], *a, **k)
    out = []
    for p in ("/f.txt", "/sub", "/sub/", "/nope", "/link.txt", "/", "/sub/index.html"):
        r = get(app, p)
        out.append(r)
    try:
        StaticFiles(directory=FILES["d"] + "/none", *a, **k)
        out.append("built")
    except RuntimeError as exc:
        out.append(str(exc))
    return out


@spec("StaticFiles-packages", "static", dict(directory=(None, []), html=(False, [True])))
def _(a, k):
    app = StaticFiles(packages=[("starlette", ".")], **k)
    return [get(app, "/py.typed")[:1], get(app, "/nope"), get(app, "/f.txt")]


# ------------------------------------------------------------------ forms
def multipart(parts):
    out = []
    for name, filename, data in parts:
        out.append(b'--b\r\nContent-Disposition: form-data; name="' + name.encode() + b'"' + (b'; filename="' + filename.encode() + b'"' if filename else b"") + b"\r\n\r\n" + data + b"\r\n")
    return b"".join(out) + b"--b--\r\n"


def form_outcome(open_form):
    """open_form(request) -> awaitable context or form; -> text"""

    def one(body):
        res = []

        async def main():
            async def receive():
                return {"type": "http.request", "body": body, "more_body": False}

            r = Request(http_scope("POST", "/", [("content-type", "multipart/form-data; boundary=b")]), receive)
            try:
                res.append(await open_form(r))
            except (MultiPartException, HTTPException) as exc:
                res.append(repr(exc) + str(getattr(exc, "message", getattr(exc, "detail", ""))))

        run_async("asyncio", 0, main)
        return res[0]

    return one


LIMITS = dict(max_files=(1000, [1, 0]), max_fields=(1000, [1, 3]), max_part_size=(1024 * 1024, [10, 100]))
BODIES = {}


def bodies():
    if not BODIES:
        M = 1024 * 1024
        BODIES["fields"] = [multipart([("f", None, b"v")] * n) for n in (1, 3, 4, 1000, 1001)]
        BODIES["files"] = [multipart([("f", "n", b"v")] * n) for n in (1, 2)]
        BODIES["many"] = [multipart([("f", "n", b"v")] * n) for n in (1000, 1001)]
        BODIES["size"] = [multipart([("f", None, b"v" * n)]) for n in (10, 11, 100, 101, M, M + 1)] + [multipart([("f", "n", b"v" * (M + 5))])]
    return BODIES


def few(k, sets):
    return [x for s in sets for x in bodies()[s]]


@spec("request.form", "forms", LIMITS)
def _(a, k):
    async def f(r):
        form = await r.form(**k)
        n = len(form.multi_items())
        await form.close()
        return n

    return [form_outcome(f)(b) for b in few(k, ["fields", "files", "size"])]


@spec("request.form-many-files", "forms", LIMITS)
def _(a, k):
    async def f(r):
        async with r.form(**k) as form:
            return len(form.multi_items())

    return [form_outcome(f)(b) for b in few(k, ["files", "many"])]


@spec("MultiPartParser", "forms", LIMITS)
def _(a, k):
    async def f(r):
        form = await MultiPartParser(r.headers, r.stream(), **k).parse()
        n = len(form.multi_items())
        await form.close()
        return n

    return [form_outcome(f)(b) for b in few(k, ["fields", "files", "size"])]


@spec("MultiPartParser-many-files", "forms", LIMITS)
def _(a, k):
    async def f(r):
        form = await MultiPartParser(r.headers, r.stream(), **k).parse()
        n = len(form.multi_items())
        await form.close()
        return n

    return [form_outcome(f)(b) for b in few(k, ["files", "many"])]


@spec("UploadFile", "uploads", dict(size=(None, [0, 5]), filename=(None, ["n.txt"]), headers=(None, [])))
def _(a, k):
    import io

    u = UploadFile(io.BytesIO(b"content"), **k)
    res = [u.size, u.filename, list(u.headers.items()), u.content_type]

    async def main():
        res.append(await u.read(3))
        await u.write(b"zz")
        res.append(u.size)
        await u.seek(1)
        res.append(await u.read())
        await u.close()
        res.append(u.file.closed)

    run_async("asyncio", 0, main)
    return res


@spec("UploadFile.read", "uploads", dict(size=(-1, [0, 3, 100])), ["size"])
def _(a, k):
    import io

    res = []

    async def main():
        u = UploadFile(io.BytesIO(b"0123456789" * 1000))
        await u.seek(2)
        res.append(await u.read(*a, **k))
        res.append(await u.read(*a, **k))

    run_async("asyncio", 0, main)
    return res


# ------------------------------------------------------------------ routing and applications
def probe(app):
    out = []
    for p in ("/", "/a", "/a/", "/b", "/b/", "/c/x", "/c/", "/c", "/nope", "/d/5", "/e", "/e/"):
        for m in ("GET", "HEAD", "POST") if p in ("/a", "/c/x") else ("GET",):
            s, h, b, c, e = get(app, p, m)
            out.append([p, m, s, [(x, ",".join(sorted(y.split(", "))) if x == "allow" else y) for x, y in h] if h else h, b, c, e])
    out.append(ws_run(app, [], "/ws"))
    for n in ("ep", "Kls", "named", "mnt", "mnt:inner", "inner", "ws", "wsep", "call", "Call"):
        for kw in ({}, {"path": "/q"}):
            try:
                out.append((n, str(app.url_path_for(n, **kw))))
            except Exception as exc:
                out.append((n, type(exc).__name__))
    return out


async def ep(request):
    """
    get: documented
    """
    return PlainTextResponse("ep " + request.method)


def inner(request):
    return PlainTextResponse("inner " + request.url.path)


class Kls(HTTPEndpoint):
    async def get(self, request):
        """
        get: documented class
        """
        return PlainTextResponse("kls get")

    async def post(self, request):
        return PlainTextResponse("kls post")


async def wsep(websocket):
    await websocket.accept()
    await websocket.send_text("hi")
    await websocket.close()


def schema_of(routes):
    return json.dumps(SchemaGenerator({"openapi": "3.0.0"}).get_schema(routes), sort_keys=True)


@spec("Route", "routes", dict(methods=(["GET"], [["POST"], ["GET", "PUT"]]), name=("ep", ["named"]), include_in_schema=(True, [False]), middleware=([], [])))
def _(a, k):
    r = Route("/a", ep, **k)
    return [probe(Router([r])), schema_of([r]), sorted(r.methods)]


@spec("Route-class", "routes", dict(methods=(None, [["POST"]]), name=("Kls", ["named"]), include_in_schema=(True, [False]), middleware=([], [])))
def _(a, k):
    r = Route("/a", Kls, **k)
    return [probe(Router([r])), schema_of([r])]


@spec("add_route", "routes", dict(methods=(["GET"], [["POST"]]), name=("ep", ["named"]), include_in_schema=(True, [False])), ["methods", "name", "include_in_schema"])
def _(a, k):
    app, r = Starlette(), Router()
    app.add_route("/a", ep, *a, **k)
    r.add_route("/a", ep, *a, **k)
    return [probe(app), probe(r), schema_of(app.routes), schema_of(r.routes)]


@spec("route()", "routes", dict(methods=(["GET"], [["POST"]]), name=("ep", ["named"]), include_in_schema=(True, [False])), ["methods", "name", "include_in_schema"])
def _(a, k):
    app = Starlette()
    r = Router()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        app.route("/a", *a, **k)(ep)
        r.route("/a", *a, **k)(ep)
    return [probe(app), probe(r), schema_of(app.routes), schema_of(r.routes)]


@spec("WebSocketRoute", "routes", dict(name=("wsep", ["named"]), middleware=([], [])))
def _(a, k):
    return probe(Router([WebSocketRoute("/ws", wsep, **k)]))


@spec("add_websocket_route", "routes", dict(name=("wsep", ["named"])), ["name"])
def _(a, k):
    app, r, d, dr = Starlette(), Router(), Starlette(), Router()
    app.add_websocket_route("/ws", wsep, *a, **k)
    r.add_websocket_route("/ws", wsep, *a, **k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d.websocket_route("/ws", *a, **k)(wsep)
        dr.websocket_route("/ws", *a, **k)(wsep)
    return [probe(x) for x in (app, r, d, dr)]


@spec("Mount", "routes", dict(app=(None, []), name=(None, ["mnt"]), middleware=([], [])))
def _(a, k):
    return probe(Router([Mount("/c", routes=[Route("/x", inner), Route("/", ep)], **k)]))


@spec("Mount-app", "routes", dict(routes=(None, []), name=(None, ["mnt"]), middleware=([], [])))
def _(a, k):
    return probe(Router([Mount("/c", app=Router([Route("/x", inner), Route("/", ep)]), **k)]))


@spec("mount()", "routes", dict(name=(None, ["mnt"])), ["name"])
def _(a, k):
    app, r = Starlette(), Router()
    app.mount("/c", Router([Route("/x", inner)]), *a, **k)
    r.mount("/c", Router([Route("/x", inner)]), *a, **k)
    return [probe(app), probe(r)]


@spec("Host", "routes", dict(name=(None, ["mnt"])), ["name"])
def _(a, k):
    app, r = Starlette(), Router()
    app.host("testserver", Router([Route("/a", inner)]), *a, **k)
    r.host("testserver", Router([Route("/a", inner)]), *a, **k)
    return [probe(Router([Host("testserver", Router([Route("/a", inner)]), *a, **k)])), probe(app), probe(r)]


async def custom_404(scope, receive, send):
    if scope["type"] == "http":
        await PlainTextResponse("custom", 444)(scope, receive, send)


ROUTES = [Route("/a", ep), Mount("/c", routes=[Route("/x", inner)], name="mnt"), Route("/e/", inner), WebSocketRoute("/ws", wsep), Route("/d/{n:int}", inner, name="named")]


@spec("Router", "routes", dict(redirect_slashes=(True, [False]), default=(None, [custom_404]), on_startup=(None, []), on_shutdown=(None, []), lifespan=(None, []), middleware=([], [])), ["redirect_slashes", "default", "on_startup", "on_shutdown", "lifespan"])
def _(a, k):
    return [probe(Router(ROUTES, *a, **k)), probe(Mount("/", app=Router(ROUTES, *a, **k)).app), lifespan(Router(ROUTES, *a, **k)), lifespan(Router(*a, **k) if not a else Router(None, *a, **k))]


@spec("Starlette", "routes", dict(middleware=(None, [[]]), exception_handlers=(None, [{}]), on_startup=(None, []), on_shutdown=(None, []), lifespan=(None, [])), ["middleware", "exception_handlers", "on_startup", "on_shutdown", "lifespan"])
def _(a, k):
    return [probe(Starlette(False, ROUTES, *a, **k)), lifespan(Starlette(False, ROUTES, *a, **k))]


@spec("Starlette-debug", "routes", dict(debug=(False, [True]), routes=(None, [[]])), ["debug", "routes"])
def _(a, k):
    app = Starlette(*a, **k)

    async def boom(request):
        raise ValueError("marker-0002")

    app.add_route("/boom", boom)
    app.state.x = 5
    s, h, b, c, e = get(app, "/boom")
    return s, b"marker-0002" in b, e, app.debug, app.state.x, lifespan(app), get(app, "/nope")


def lifespan(app):
    out = []

    async def main():
        box = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

        async def receive():
            return box.pop(0)

        async def send(m):
            out.append(m["type"])

        await app({"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}, receive, send)

    run_async("asyncio", 0, main)
    return out


# ------------------------------------------------------------------ WebSockets
@spec("websocket.close", "websockets", dict(code=(1000, [1001, 4000]), reason=("", ["why"])), ["code", "reason"])
def _(a, k):
    async def w(websocket):
        await websocket.accept()
        await websocket.close(*a, **k)

    async def w2(websocket):
        await websocket.close(*a, **k)

    async def raw(scope, receive, send):
        await WebSocketClose(*a, **k)(scope, receive, send)

    return [nothing_for_reason(ws_run(Router([WebSocketRoute("/", f)]), [])) for f in (w, w2)] + [nothing_for_reason(ws_run(raw, []))]


def nothing_for_reason(rows):
    return [r[:2] + [r[2] or ""] + r[3:] if isinstance(r, list) else r for r in rows]


@spec("websocket.accept", "websockets", dict(subprotocol=(None, ["s"]), headers=([], [[(b"x-a", b"1")]])), ["subprotocol", "headers"])
def _(a, k):
    async def w(websocket):
        await websocket.accept(*a, **k)
        await websocket.close()

    return ws_run(Router([WebSocketRoute("/", w)]), [])


@spec("websocket.json", "websockets", dict(mode=("text", ["binary"])), ["mode"])
def _(a, k):
    async def w(websocket):
        await websocket.accept()
        await websocket.send_json({"a": "é"}, *a, **k)
        try:
            await websocket.send_text(repr(await websocket.receive_json(*a, **k)))
        except KeyError as exc:
            await websocket.send_text("KeyError")

    return [ws_run(Router([WebSocketRoute("/", w)]), [m]) for m in ({"type": "websocket.receive", "text": '{"b": "é"}', "bytes": b'{"c": 1}'},)]


@spec("WebSocketDisconnect", "websockets", dict(code=(1000, [1001]), reason=("", ["why"])), ["code", "reason"])
def _(a, k):
    e = WebSocketDisconnect(*a, **k)
    return e.code, e.reason


@spec("WebSocketEndpoint", "websockets", dict(encoding=(None, ["text", "bytes", "json"])))
def _(a, k):
    got = []

    class E(WebSocketEndpoint):
        if "encoding" in k:
            encoding = k["encoding"]

        async def on_receive(self, websocket, data):
            got.append(data)
            await websocket.send_text("ok")

    return [ws_run(Router([WebSocketRoute("/", E)]), [m]) for m in ({"type": "websocket.receive", "text": '"t"'}, {"type": "websocket.receive", "bytes": b'"b"'}, {"type": "websocket.receive", "text": "", "bytes": None})] + [got]


# ------------------------------------------------------------------ configuration, data structures
@spec("Config", "config", dict(env_file=(None, ["def.env"]), env_prefix=("", ["PRE_"])), ["env_file"])
def _(a, k):
    out = []
    os.environ["VP_C49"] = "fromenv"
    try:
        for c in (Config(*a, **k), Config(*a, environ=Environ({"K": "env", "NUM": "7"}), **k)):
            for key in ("K", "FILEKEY", "NUM", "VP_C49"):
                try:
                    out.append(c(key))
                except KeyError:
                    out.append(KeyError)
            out += [c("NUM", cast=int, default=3), c.get("NUM", None, 4), c("MISSING", default=None)]
    finally:
        del os.environ["VP_C49"]
    return out


@spec("config()", "config", dict(cast=(None, [str, bool])), ["cast"])
def _(a, k):
    out = []
    c = Config("def.env", environ={"T": "true", "N": "5"})
    for key in ("T", "N", "FILEKEY", "NO"):
        for f in (c, c.get):
            try:
                v = f(key, *a, **k)
                out.append([type(v).__name__, v])
            except (KeyError, ValueError) as exc:
                out.append(type(exc).__name__)
    return out


@spec("Environ", "config", dict(environ=(os.environ, [{"A": "1"}])), ["environ"])
def _(a, k):
    e = Environ(*a, **k)
    return sorted(e), e.get("A"), len(e)


@spec("Headers", "config", dict(headers=(None, [{"A": "1", "b": "2"}]), raw=(None, []), scope=(None, [])), ["headers", "raw", "scope"])
def _(a, k):
    return [(list(c(*a, **k).items()), c(*a, **k).raw, len(c(*a, **k)), repr(c(*a, **k)), "x" in c(*a, **k)) for c in (Headers, MutableHeaders)]


@spec("URL", "config", dict(url=("", ["http://h/p?q"]), scope=(None, [])), ["url", "scope"])
def _(a, k):
    u = URL(*a, **k)
    return str(u), repr(u), u.path, u.query, u.scheme, u.netloc, u.port, str(u.replace(path="/x")), str(u.include_query_params(a=1))


@spec("getlist", "config", dict(default=(None, ["d"])), ["default"])
def _(a, k):
    q, f, h, m = QueryParams("a=1&a=2"), FormData([("a", "1")]), Headers({"a": "1"}), MultiDict([("a", "1"), ("a", "2")])
    return [[x.get(key, *a, **k) for key in ("a", "b")] for x in (q, f, h, m)]


@spec("State", "config", dict(state=(None, [{"a": 1}])), ["state"])
def _(a, k):
    s, t = State(*a, **k), State(*a, **k)
    s.b = 2
    return getattr(s, "a", None), s.b, hasattr(t, "b") if not k.get("state") and not any(a) else None


@spec("MultiDict.setdefault", "config", dict(default=(None, ["d"])), ["default"])
def _(a, k):
    m = MultiDict([("a", "1"), ("a", "2")])
    return [m.setdefault("a", *a, **k), m.setdefault("b", *a, **k), m.multi_items()]


@spec("Request", "scopes", dict(receive=(None, []), send=(None, [])), [])
def _(a, k):
    from starlette.requests import empty_receive, empty_send

    k = {n: v if v is not None else {"receive": empty_receive, "send": empty_send}[n] for n, v in k.items()}
    out = []

    async def main():
        r = Request(http_scope("GET", "/", extensions={"http.response.push": {}}), **k)
        for f in (r.body(), r.send_push_promise("/x")):
            try:
                out.append(await f)
            except Exception as exc:
                out.append(repr(exc))

    run_async("asyncio", 0, main)
    return out


# ------------------------------------------------------------------ templates
@spec("TemplateResponse", "templates", dict(context=(None, [{"x": "<i>"}, {"x": 1, "y": 2}]), status_code=(200, [404]), headers=HDRS, media_type=("text/html", ["text/x"]), background=(None, [])), ["context", "status_code", "headers", "media_type", "background"])
def _(a, k):
    t = Jinja2Templates(FILES["d"] + "/tpl")

    async def f(request):
        return t.TemplateResponse(request, "t.html", *a, **k)

    return get(Starlette(routes=[Route("/", f)]))


@spec("TemplateResponse-names", "templates", dict(context=(None, [{"x": "<i>"}, {"x": 1, "y": 2}]), status_code=(200, [404]), headers=HDRS, media_type=("text/html", ["text/x"]), background=(None, [])))
def _(a, k):
    t = Jinja2Templates(FILES["d"] + "/tpl")

    async def g(request):
        return t.TemplateResponse(request=request, name="t.html", **k)

    return get(Starlette(routes=[Route("/", g)]))


@spec("TemplateResponse-old", "templates", dict(status_code=(200, [404]), headers=HDRS, media_type=("text/html", ["text/x"]), background=(None, [])), ["status_code", "headers", "media_type", "background"])
def _(a, k):
    t = Jinja2Templates(FILES["d"] + "/tpl")

    async def f(request):
        return t.TemplateResponse("t.html", {"request": request, "x": "<"}, *a, **k)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return get(Starlette(routes=[Route("/", f)]))


@spec("Jinja2Templates", "templates", dict(context_processors=(None, [[], [lambda request: {"y": "cp"}]]), autoescape=(True, [False])))
def _(a, k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = Jinja2Templates(FILES["d"] + "/tpl", **k)

    async def f(request):
        return t.TemplateResponse(request, "t.html", {"x": "<i>&"})

    return get(Starlette(routes=[Route("/", f)]))


# ------------------------------------------------------------------ test client
def echo_app():
    async def echo(request):
        sc = request.scope
        return JSONResponse(dict(url=str(request.url), root=sc["root_path"], headers=sorted(request.headers.items()), client=list(sc["client"]), server=list(sc["server"]), method=sc["method"], lib=asyncio_or_trio(), cookies=dict(request.cookies), body=(await request.body()).decode()))

    async def redirect(request):
        return RedirectResponse("/echo?from=redirect")

    async def boom(request):
        raise ValueError("marker-0003")

    async def w(websocket):
        await websocket.accept(subprotocol=(websocket.scope["subprotocols"] or [None])[0])
        await websocket.send_json(dict(url=str(websocket.url), headers=sorted(websocket.headers.items()), client=list(websocket.client), sub=websocket.scope["subprotocols"]))
        m = await websocket.receive()
        while m["type"] != "websocket.disconnect":
            await websocket.send_text(repr(sorted(m.items())))
            m = await websocket.receive()
        CLOSED.append((m.get("code"), m.get("reason")))

    return Starlette(routes=[Route("/echo", echo, methods=["GET", "POST", "PUT", "DELETE"]), Route("/redirect", redirect), Route("/boom", boom), WebSocketRoute("/ws", w)])


CLOSED = []


def asyncio_or_trio():
    import sniffio

    return sniffio.current_async_library()


TC = dict(base_url=("http://testserver", ["https://e.org:8000"]), raise_server_exceptions=(True, [False]), root_path=("", ["/r"]), backend=("asyncio", ["trio"]), backend_options=(None, []), cookies=(None, [{"a": "b"}]), headers=(None, [{"x-a": "1", "user-agent": "me"}]), follow_redirects=(True, [False]), client=(("testclient", 50000), [("1.2.3.4", 5)]))


@spec("TestClient", "test clients", TC, list(TC))
def _(a, k):
    c = TestClient(echo_app(), *a, **k)
    out = []
    for f in (lambda: c.get("/echo?a=b"), lambda: c.post("/echo", content="body"), lambda: c.get("/redirect"), lambda: c.get("/boom"), lambda: c.get("/nope")):
        try:
            r = f()
            out.append([r.status_code, sorted(r.headers.items()), r.text, str(r.url)])
        except ValueError as exc:
            out.append(repr(exc))
    with c.websocket_connect("/ws") as w:
        out.append(w.receive_json())
    return out


@spec("websocket_connect", "test clients", dict(subprotocols=(None, [["a"], ["a", "b"]])), ["subprotocols"])
def _(a, k):
    with TestClient(echo_app()).websocket_connect("/ws", *a, **k) as w:
        return [w.receive_json(), w.accepted_subprotocol]


@spec("session.json", "test clients", dict(mode=("text", ["binary"])), ["mode"])
def _(a, k):
    with TestClient(echo_app()).websocket_connect("/ws") as w:
        w.receive_json()
        w.send_json({"a": "é"}, *a, **k)
        return w.receive_text()


@spec("session.close", "test clients", dict(code=(1000, [1001, 4000]), reason=(None, ["why"])), ["code", "reason"])
def _(a, k):
    CLOSED.clear()
    with TestClient(echo_app()).websocket_connect("/ws") as w:
        w.receive_json()
        w.close(*a, **k)
        time.sleep(0)
    return list(CLOSED)


REQ = dict(content=(None, ["x"]), params=(None, [{"q": "1"}]), headers=(None, [{"x-a": "1"}]), cookies=(None, []), follow_redirects=(True, [False]), extensions=(None, []))


@spec("client.request", "test clients", REQ)
def _(a, k):
    c = TestClient(echo_app())
    out = []
    for m in ("post", "put", "request"):
        args = ("/echo",) if m != "request" else ("POST", "/echo")
        r = getattr(c, m)(*args, **k)
        out.append([r.status_code, r.text])
    kk = {n: v for n, v in k.items() if n != "content"}
    r = c.get("/redirect", **kk)
    out.append([r.status_code, r.text])
    return out


# ------------------------------------------------------------------ scopes and messages
STACK = ["cors", "gzip", "session", "base", "host", "auth", "pure"]


def kitchen(stack):
    async def echo(request):
        try:
            u = str(request.url_for("echo", p="z"))
        except Exception as exc:
            u = repr(exc)
        body = await request.body()
        return JSONResponse(dict(url=str(request.url), base=str(request.base_url), for_=u, client=list(request.client or ["nobody"]), q=request.query_params.multi_items(), body=body.decode("latin-1"), path=request.scope["path"], state=getattr(request.state, "a", None), pp=request.path_params, disc=await request.is_disconnected() if body is None else None))

    async def stream(request):
        got = [c async for c in request.stream()]

        async def gen():
            for c in got:
                yield c
            yield "x" * 600

        return StreamingResponse(gen())

    async def push(request):
        await request.send_push_promise("/x")
        return PlainTextResponse("pushed")

    async def form(request):
        async with request.form() as f:
            return JSONResponse([[k, v] for k, v in f.multi_items()])

    async def redirect(request):
        return RedirectResponse(request.url_for("echo", p="r") if request.headers.get("host") else "/x")

    async def raw(scope, receive, send):
        m = await receive()
        await PlainTextResponse(repr((m.get("body", b""), m.get("more_body", False), scope.get("root_path", ""))))(scope, receive, send)

    def wsgi(environ, start_response):
        start_response("200 OK", [("content-type", "text/plain")])
        return [repr([environ[k] for k in ("REQUEST_METHOD", "SCRIPT_NAME", "PATH_INFO", "QUERY_STRING", "SERVER_NAME", "wsgi.url_scheme")]).encode(), environ["wsgi.input"].read()]

    async def w(websocket):
        await websocket.accept(subprotocol=next(iter(websocket.scope.get("subprotocols", [])), None))
        await websocket.send_json(dict(url=str(websocket.url), base=str(websocket.base_url), q=websocket.query_params.multi_items(), client=list(websocket.client or ["nobody"]), state=getattr(websocket.state, "a", None)))
        await websocket.close()

    async def deny(websocket):
        raise HTTPException(403, "no")

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            request.state.a = request.url.path
            r = await call_next(request)
            r.headers["x-base"] = str(request.url)
            return r

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            await self.app(scope, receive, send)

    make = dict(cors=lambda: Middleware(CORSMiddleware, allow_origins=["*"]), gzip=lambda: Middleware(GZipMiddleware, minimum_size=50), session=lambda: Middleware(SessionMiddleware, secret_key="k"), base=lambda: Middleware(Base), host=lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["*"]), auth=lambda: Middleware(AuthenticationMiddleware, backend=Backend()), pure=lambda: Middleware(Pure), https=lambda: Middleware(HTTPSRedirectMiddleware))
    return Starlette(
        routes=[Route("/echo/{p}", echo, methods=["GET", "POST"], name="echo"), Route("/stream", stream, methods=["GET", "POST"]), Route("/push", push), Route("/form", form, methods=["POST"]), Route("/redirect", redirect), Mount("/raw", app=raw), Mount("/wsgi", WSGIMiddleware(wsgi)), Mount("/m", routes=[Route("/echo/{p}", echo, methods=["GET", "POST"], name="echo")]), Mount("/static", StaticFiles(directory=FILES["d"], html=True)), WebSocketRoute("/ws", w), WebSocketRoute("/deny", deny), Mount("/mw", routes=[WebSocketRoute("/ws", w)])],
        middleware=[make[m]() for m in stack if m in make],
    )


HTTP_KEYS = dict(scheme="http", root_path="", client=None, server=None, extensions={}, state={}, spec_version="2.0", more_body=False, body=b"")
WS_KEYS = dict(scheme="ws", root_path="", query_string="", client=None, server=None, extensions={}, state={}, subprotocols=[], spec_version="2.0")
PATHS = ["/echo/a", "/m/echo/b", "/stream", "/push", "/form", "/redirect", "/raw/x", "/wsgi/y", "/static/f.txt", "/static/sub", "/echo/a/", "/nope", "/m/echo"]
WSPATHS = ["/ws", "/mw/ws", "/deny", "/nope", "/ws/"]


def scoped(case, leave):
    """The application's answer with the keys in `leave` absent."""
    with_ = {k: v for k, v in case["given"].items()}
    ws = case["ws"]
    keys = WS_KEYS if ws else HTTP_KEYS
    scope = ws_scope(case["path"], [("host", "h")] if case["host"] else []) if ws else http_scope(case["method"], case["path"], ([("host", "h")] if case["host"] else []) + [("accept-encoding", "gzip")] + ([("content-type", "application/x-www-form-urlencoded")] if case["path"] == "/form" else []))
    scope["query_string"] = b"q=1"
    if "query_string" in keys and "query_string" not in with_:
        scope["query_string"] = b""
    for k, v in keys.items():
        v = with_.get(k, v)
        if k in ("body", "more_body") or k == "query_string" and k not in leave:
            continue
        if k == "spec_version":
            scope["asgi"] = {"version": "3.0"} if k in leave else {"version": "3.0", "spec_version": v}
        elif k in leave:
            scope.pop(k, None)
        else:
            scope[k] = tuple(v) if isinstance(v, list) and k in ("client", "server") else dict(v) if isinstance(v, dict) else v
    app = kitchen(case["stack"])
    if ws:
        return nothing_for_reason(ws_session(app, scope))
    t = Trace()

    async def main():
        box = []
        parts = case["body"]
        for i, p in enumerate(parts):
            m = {"type": "http.request", "body": p.encode("latin-1"), "more_body": i < len(parts) - 1}
            if not p and "body" in leave:
                m.pop("body")
            if i == len(parts) - 1 and "more_body" in leave:
                m.pop("more_body")
            box.append(m)

        gone = anyio.Event()

        async def receive():
            if box:
                return box.pop(0)
            await gone.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            t.events.append(("send", snap(m)))
            if m["type"] == "http.response.body" and not m.get("more_body", False):
                gone.set()

        try:
            with anyio.fail_after(10):
                await app(scope, receive, send)
        except Exception as exc:
            t.exc = exc

    run_async("asyncio", 0, main)
    s, h, b, c, e = norm(t)
    if h and dict(h).get("content-encoding") == "gzip" and b:
        b = zlib.decompress(b, 31)
        h = [x for x in h if x[0] != "content-length"]
    return [s, h, b, c, e]


def ws_session(app, scope):
    sent = []
    out = []

    async def main():
        box = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "x"}]

        async def receive():
            return box.pop(0) if box else {"type": "websocket.disconnect", "code": 1005}

        async def send(m):
            sent.append(snap(m))

        try:
            with anyio.fail_after(10):
                await app(scope, receive, send)
            out.append("returned")
        except Exception as exc:
            out.append(repr(exc))

    run_async("asyncio", 0, main)
    return [[m["type"], m.get("code"), m.get("reason"), m.get("text"), m.get("subprotocol"), sorted(m.get("headers") or []), m.get("status"), m.get("body")] for m in sent] + out


def messaged(case, leave):
    """What the server (and a test client) gets from an application that leaves keys of its messages out."""

    async def app(scope, receive, send):
        start = {"type": "http.response.start", "status": case["status"], "headers": [(k.encode(), v.encode()) for k, v in case["headers"]]}
        if not case["headers"] and "headers" in leave:
            start.pop("headers")
        await send(start)
        parts = case["body"]
        for i, p in enumerate(parts):
            m = {"type": "http.response.body", "body": p.encode("latin-1"), "more_body": i < len(parts) - 1}
            if not p and "body" in leave:
                m.pop("body")
            if i == len(parts) - 1 and "more_body" in leave:
                m.pop("more_body")
            await send(m)

    stack = kitchen(case["stack"]).user_middleware
    for cls, args, kwargs in reversed(stack):
        app = cls(app, *args, **kwargs)
    app = ServerErrorMiddleware(ExceptionMiddleware(app))
    t = drive(app, http_scope(case["method"], "/x", [("host", "h"), ("accept-encoding", "gzip"), ("origin", "https://a.org")]))
    s, h, b, c, e = norm(t)
    if h and dict(h).get("content-encoding") == "gzip" and b:
        b = zlib.decompress(b, 31)
        h = [x for x in h if x[0] != "content-length"]
    r = TestClient(app).request(case["method"], "/x", headers={"accept-encoding": "identity"}) if case["client"] else None
    return [s, h, b, c, e, [r.status_code, sorted(r.headers.items()), r.content] if r is not None else None]


# ------------------------------------------------------------------ cases
HEAVY = {"request.form-many-files", "MultiPartParser-many-files"}
SLOW = {"TestClient", "request.form", "MultiPartParser", "websocket_connect", "session.json", "session.close", "client.request"}


def fixed(tier):
    out = []
    for name, s in SPECS.items():
        ps = list(s["params"])
        out.append(dict(kind="args", spec=name, out=ps, other={}, pos=0))
        out.append(dict(kind="args", spec=name, out=[], other={}, pos=len(s["positional"])))
        if name in HEAVY:
            continue
        for p in ps:
            out.append(dict(kind="args", spec=name, out=[p], other={}, pos=0))
            for q in ps:
                if q != p and s["params"][q][1]:
                    for j in range(len(s["params"][q][1]) if name not in SLOW else 1):
                        out.append(dict(kind="args", spec=name, out=[p], other={q: j}, pos=0))
    i = 0
    for ws in (False, True):
        for p in WSPATHS if ws else PATHS:
            for host in (True, False):
                for stack in ([], ["base"], ["https"], STACK):
                    i += 1
                    keys = list(WS_KEYS if ws else HTTP_KEYS)
                    out.append(dict(kind="scope", ws=ws, path=p, host=host, stack=stack, method="POST" if p == "/form" else ["GET", "POST"][i % 2], leave=keys, given={}, body=[[""], ["a=b", ""], ["", "a=b"]][i % 3]))
                    out.append(dict(kind="scope", ws=ws, path=p, host=host, stack=stack, method="POST" if p == "/form" else "GET", leave=[keys[i % len(keys)]], given={}, body=[""]))
    for stack in ([], ["base"], ["gzip"], ["cors"], ["session"], ["gzip", "base"], STACK):
        for hs in ([], [["x-a", "1"]]):
            for body in ([""], ["x" * 100], ["x" * 60, ""], ["", "x" * 60], ["", "", ""]):
                for method in ("GET", "HEAD"):
                    out.append(dict(kind="message", stack=stack, headers=hs, body=body, leave=["headers", "body", "more_body"], method=method, status=200, client=not hs))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.2:
        ws = rng.random() < 0.3
        keys = list(WS_KEYS if ws else HTTP_KEYS)
        given = {}
        for k, v in (("root_path", "/r"), ("client", ["c", 1]), ("server", ["s.org", 8080]), ("server", ["/unix.sock", None]), ("scheme", "wss" if ws else "https"), ("extensions", {"http.response.push": {}, "websocket.http.response": {}}), ("state", {"a": "st"}), ("spec_version", "2.4"), ("subprotocols", ["p", "q"]), ("query_string", "q=1")):
            if rng.random() < 0.25 and k in keys:
                given[k] = v
        path = rng.choice(WSPATHS if ws else PATHS)
        if given.get("root_path") and rng.random() < 0.8:
            path = "/r" + path
        return dict(kind="scope", ws=ws, path=path, host=rng.random() < 0.7, stack=rng.sample(STACK + ["https"], rng.randrange(0, 5)), method=rng.choice(["GET", "POST", "HEAD"]) if path != "/form" else "POST", leave=[k for k in keys if k not in given and rng.random() < 0.6], given=given, body=[rng.choice(["", "a=b", "x"]) for _ in range(rng.choice([1, 1, 2, 3]))])
    if r < 0.3:
        return dict(kind="message", stack=rng.sample(STACK + ["https"], rng.randrange(0, 5)), headers=rng.choice([[], [], [["x-a", "1"]], [["content-type", "text/plain"]]]), body=[rng.choice(["", "", "x", "x" * 600]) for _ in range(rng.choice([1, 1, 2, 3]))], leave=[k for k in ("headers", "body", "more_body") if rng.random() < 0.7], method=rng.choice(["GET", "HEAD", "POST"]), status=rng.choice([200, 201, 204, 404]), client=rng.random() < 0.1)
    names = [n for n in SPECS if n not in HEAVY]
    name = rng.choice(names)
    if name in SLOW and rng.random() < 0.8:
        name = rng.choice(names)
    s = SPECS[name]
    ps = list(s["params"])
    left = [p for p in ps if rng.random() < 0.5]
    other = {}
    for p in ps:
        if p not in left and s["params"][p][1] and rng.random() < 0.6:
            other[p] = rng.randrange(len(s["params"][p][1]))
    return dict(kind="args", spec=name, out=left, other=other, pos=rng.randrange(len(s["positional"]) + 1) if rng.random() < 0.4 else 0)


def observe(fn, a, k):
    try:
        return fn(a, k)
    except (AssertionError, TypeError, ValueError, RuntimeError, KeyError, AttributeError) as exc:
        return "raised " + repr(exc)


def run(case, mon):
    if case["kind"] == "scope":
        mon.n("scopes")
        mon.n("comparisons")
        if case["leave"]:
            mon.n("left out", len(case["leave"]))
        mon.eq(scoped(case, case["leave"]), scoped(case, []), "scope", f"{case['method']} {case['path']} through {case['stack']} without {case['leave']}, given {case['given']}, compared to the defaults")
        mon.nontrivial(case["path"], case["stack"], case["leave"], sorted(case["given"]))
        return
    if case["kind"] == "message":
        mon.n("messages")
        mon.n("comparisons")
        mon.eq(messaged(case, case["leave"]), messaged(case, []), "message", f"an application behind {case['stack']} leaving {case['leave']} out of {case['headers']}, {case['body']}")
        mon.nontrivial(case["stack"], case["leave"], len(case["body"]), case["status"])
        return
    s = SPECS[case["spec"]]
    mon.n(s["counter"])
    params = s["params"]
    explicit, short = {}, {}
    for p, (default, others) in params.items():
        v = others[case["other"][p]] if p in case["other"] else default
        explicit[p] = v
        if p not in case["out"]:
            short[p] = v
    what = f"{case['spec']} with {case['out']} left out, {case['other']} varied"
    a = []
    k = dict(short)
    for p in s["positional"][: case["pos"]]:
        if p not in k:
            break
        a.append(k.pop(p))
    if a:
        mon.n("by position", len(a))
    mon.n("comparisons")
    mon.n("left out", len(case["out"]))
    want = observe(s["fn"], [], explicit)
    got = observe(s["fn"], a, k)
    mon.eq(got, want, "default:" + case["spec"], what + (f", {len(a)} by position" if a else ""))
    mon.nontrivial(case["spec"], case["out"], sorted(case["other"].items()), len(a))
