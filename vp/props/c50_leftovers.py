from __future__ import annotations

import asyncio
import gc
import json
import os
import sys
import threading
import time
import warnings
import weakref
from base64 import b64encode

import anyio
import anyio.to_thread
import itsdangerous

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.testclient import TestClient
from starlette.websockets import WebSocketDisconnect

from vp import tracking
from vp.asgi import http_scope, ws_scope

ID = "C50"
PROP = dict(
    title="A connection that is over leaves nothing behind",
    statement=(
        "Once a request or WebSocket is over - answered, refused, failed, or given up by the client at any moment - nothing of it remains, whichever endpoints, responses, forms and middleware served it and however many came before: "
        "no object made for it is still reachable, no task is running, no thread or threadpool token is held, no file, temporary file, socket or memory stream is open, every generator it streamed from has been finished, no coroutine was left un-awaited, and nothing was reported anywhere but to the server that called the application. "
        "An application is as large after thousands of connections as after the first ones, whatever their paths, hosts, headers, cookies, sessions and forms were, and is itself freed when it is no longer used. The same holds for a test client and its sessions, however they end."
    ),
    over=["histories", "fault_sequences", "configurations"],
    quant="every sequence of connections of every kind through every middleware stack, each ended at any message, and floods of thousands of differing connections",
    why="tests make one connection per application and look at its answer; what is left over only shows in long histories",
    files=["starlette/middleware/base.py", "starlette/responses.py", "starlette/requests.py", "starlette/websockets.py", "starlette/routing.py", "starlette/formparsers.py", "starlette/datastructures.py", "starlette/concurrency.py", "starlette/_exception_handler.py", "starlette/middleware", "starlette/staticfiles.py", "starlette/templating.py", "starlette/testclient.py", "starlette/applications.py"],
    mechanism=[("memory streams of BaseHTTPMiddleware", "starlette/middleware/base.py:BaseHTTPMiddleware.__call__"), ("streamed generators", "starlette/responses.py:StreamingResponse.stream_response"), ("uploads", "starlette/formparsers.py:MultiPartParser.parse"), ("WSGI streams", "starlette/middleware/wsgi.py:WSGIResponder.__call__"), ("test client portals", "starlette/testclient.py:TestClient._portal_factory")],
)
TECH = "runtime monitoring of long histories: weak references to what each connection was made of, task, thread, descriptor, token and generator accounting, warnings and unraisable errors after every connection; allocation counts over floods of connections"
RULE = "each case is a history of 5-30 connections, a flood of thousands, or a test-client script, through a generated stack; non-trivial when connections ended and their leftovers were looked for"
LEVEL_NOTE = "held on the generated histories; an object may live until the next garbage collection, so what only a reference cycle keeps is not counted"
BUDGET = {"quick": (6000, 14), "thorough": (80000, 220)}
REQUIRED = ("connections", "completed", "given up", "failed sends", "failed applications", "websockets", "uploads", "streams", "generators finished", "files", "objects freed", "applications freed", "floods", "test clients", "threads", "trio")

HTTP = ["plain", "json", "sync", "stream", "syncstream", "stream-raise", "file", "static", "static-304", "static-dir", "static-404", "body", "chunks", "form", "form-open", "form-big", "form-bad", "form-limit", "urlencoded", "bg", "bgs", "bg-raise", "raise", "raise-sync", "http-exc", "http-exc-mod", "handled", "class", "class-405", "redirect", "template", "wsgi", "wsgi-raise", "session", "session-clear", "mounted", "host", "slash", "nope", "auth", "raw", "nothing", "schema", "push", "unread", "depends", "group"]
WS = ["ws", "ws-class", "ws-raise", "ws-exc", "ws-never", "ws-deny", "ws-deny-http", "ws-nope", "ws-close", "ws-json", "ws-binary", "ws-auth"]
MWS = ["base", "base", "base-body", "base-early", "base-raise-after", "base-drop", "base-bg", "base-catch", "gzip", "cors", "session", "auth", "hosts", "pure", "wrap"]
ENDS = ["full", "full", "full", "gone-recv", "gone-send", "fail-send"]


def conn(kind, end="full", at=0, size=500, spec="2.3"):
    return dict(kind=kind, end=end, at=at, size=size, spec=spec)


FLOODS = ["path", "query", "host", "header", "cookie", "session", "form", "multipart", "static", "range", "ws", "reverse", "raise", "http-exc", "stream", "redirect", "method", "origin", "body", "background", "wsgi", "template", "url", "auth"]
CLIENTS = ["get", "post", "stream", "raise", "raise-hidden", "lifespan", "lifespan-fail", "lifespan-raise", "ws", "ws-open", "ws-raise", "ws-deny", "ws-body-raises", "cm-ws", "redirect", "upload", "bg", "nested"]


def fixed(tier):
    out = []
    i = 0
    for kind in HTTP + WS:
        for mws in ([], ["base"], ["base", "gzip", "session", "wrap"]):
            i += 1
            conns = [conn(kind)] + [conn(kind, e, a, [500, 70000][a % 2], ["2.3", "2.4"][a % 2]) for e in ("gone-recv", "gone-send", "fail-send") for a in (0, 1, 2)] + [conn(kind)]
            out.append(dict(what="history", mws=mws, conns=conns, debug=i % 5 == 0, backend="asyncio" if i % 4 else "trio"))
    for m in sorted(set(MWS)):
        out.append(dict(what="history", mws=[m], conns=[conn(k, ["full", "gone-send", "gone-recv"][j % 3], j % 3) for j, k in enumerate(["plain", "stream", "form", "raise", "http-exc", "ws", "file", "body", "bg"])], debug=False, backend="asyncio"))
        out.append(dict(what="history", mws=[m, "base", m], conns=[conn(k) for k in ["plain", "stream", "form-open", "stream-raise", "handled", "ws-class", "wsgi"]], debug=False, backend="asyncio"))
    for f in FLOODS:
        out.append(dict(what="flood", flood=f, mws={"origin": ["cors"], "session": ["session"], "auth": ["auth"], "host": ["hosts"]}.get(f) or [[], ["base"], ["session", "gzip"]][len(out) % 3], n=250, warm=1400, seed=len(out)))
    for f in ("path", "url", "session", "host", "origin", "form"):
        out.append(dict(what="flood", flood=f, mws=["cors", "session", "auth", "gzip"], n=250, warm=1400, seed=len(out)))
    for c in CLIENTS:
        for b in ("asyncio", "trio"):
            out.append(dict(what="client", script=c, mws=[[], ["base"]][len(out) % 2], backend=b, n=2))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.015:
        return dict(what="flood", flood=rng.choice(FLOODS), mws=rng.sample([m for m in MWS if m not in ("base-raise-after", "base-early", "hosts")], rng.randrange(0, 4)), n=rng.choice([200, 400]), warm=rng.choice([1400, 2500]), seed=rng.randrange(10**6))
    if r < 0.12:
        return dict(what="client", script=rng.choice(CLIENTS), mws=rng.sample(MWS, rng.randrange(0, 3)), backend=rng.choice(["asyncio", "asyncio", "trio"]), n=rng.randrange(1, 4))
    conns = []
    for _ in range(rng.randrange(5, 30)):
        conns.append(conn(rng.choice(WS if rng.random() < 0.2 else HTTP), rng.choice(ENDS), rng.randrange(0, 5), rng.choice([0, 10, 500, 3000, 70000, 200000]), rng.choice(["2.0", "2.3", "2.4", "3.0"])))
    return dict(what="history", mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], conns=conns, debug=rng.random() < 0.15, backend="asyncio" if rng.random() < 0.85 else "trio")


SIGNER = itsdangerous.TimestampSigner("k")
DIR = {}
MOD_EXC = {}


def worker_setup(mon):
    os.makedirs("lo/sub", exist_ok=True)
    os.makedirs("lo/tpl", exist_ok=True)
    DIR["d"] = os.path.abspath("lo")
    for n in (0, 10, 500, 3000, 70000, 200000):
        with open(f"lo/f{n}.txt", "wb") as f:
            f.write(bytes(i % 251 for i in range(n)))
    with open("lo/sub/index.html", "w") as f:
        f.write("<p>index")
    with open("lo/tpl/t.html", "w") as f:
        f.write("{{ x }}{{ url_for('plain') }}")


class Boom(Exception):
    pass


class Odd(Exception):
    pass


class Token:
    """Stands for everything made for a connection: it is in the scope, and lives as long as anything refers to that."""


class Live:
    """What the current connection was made of."""

    def __init__(self):
        self.refs = []
        self.gens = [0, 0]

    def add(self, x, name=None):
        self.refs.append((weakref.ref(x), name or type(x).__name__))
        return x


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        a = conn.headers.get("authorization")
        if a == "bad":
            raise AuthenticationError("bad")
        return (AuthCredentials(["authenticated"]), SimpleUser("u")) if a else None


def make_app(mws, debug, live):
    def body(n, kinds="async"):
        async def agen():
            live.gens[0] += 1
            try:
                for i in range(4):
                    await anyio.sleep(0)
                    yield b"%d" % i + b"x" * (n // 4)
            finally:
                live.gens[1] += 1

        def sgen():
            live.gens[0] += 1
            try:
                for i in range(3):
                    yield "y" * (n // 3 + 1)
            finally:
                live.gens[1] += 1

        return agen() if kinds == "async" else sgen()

    size = lambda r: r.scope.get("size", 500)  # noqa: E731
    R = live.add

    async def plain(request):
        R(request)
        return R(PlainTextResponse("a" * size(request)))

    async def json_(request):
        return R(JSONResponse({"a": list(range(20)), "url": str(request.url)}))

    def sync(request):
        R(request)
        return R(HTMLResponse("s" * size(request)))

    async def stream(request):
        R(request)
        return R(StreamingResponse(body(size(request))))

    async def syncstream(request):
        return R(StreamingResponse(body(size(request), "sync")))

    async def stream_raise(request):
        async def g():
            live.gens[0] += 1
            try:
                yield b"first"
                await anyio.sleep(0)
                raise Boom("late")
            finally:
                live.gens[1] += 1

        return R(StreamingResponse(g()))

    async def file(request):
        return R(FileResponse(os.path.join(DIR["d"], "f%d.txt" % size(request)), filename="é.txt"))

    async def body_(request):
        R(request)
        return R(PlainTextResponse(str(len(await request.body()))))

    async def chunks(request):
        n = 0
        async for c in request.stream():
            n += len(c)
        return R(PlainTextResponse(str(n)))

    async def form(request):
        async with request.form() as f:
            R(f)
            for _, v in f.multi_items():
                if hasattr(v, "read"):
                    R(v)
                    await v.read(5)
            return R(PlainTextResponse(str(len(f))))

    async def form_open(request):
        """closing the form is left to garbage collection"""
        f = R(await request.form())
        for v in f.values():
            if hasattr(v, "read"):
                R(v)
        return R(PlainTextResponse(str(len(f))))

    async def form_limit(request):
        async with request.form(max_files=1, max_fields=1) as f:
            return R(PlainTextResponse(str(len(f))))

    async def task(*a):
        await anyio.sleep(0)

    def stask(*a):
        pass

    async def btask(*a):
        raise Boom("background")

    async def bg(request):
        return R(PlainTextResponse("bg", background=R(BackgroundTask(task, request))))

    async def bgs(request):
        t = R(BackgroundTasks())
        t.add_task(task, request)
        t.add_task(stask, request)
        return R(JSONResponse({}, background=t))

    async def bg_raise(request):
        return R(PlainTextResponse("bg", background=BackgroundTask(btask, request)))

    async def raise_(request):
        raise Boom(R(request).url.path)

    def raise_sync(request):
        raise Boom("sync")

    async def http_exc(request):
        raise R(HTTPException(418, "tea " + request.url.path))

    async def handled(request):
        raise R(Odd(request))

    async def on_odd(request, exc):
        R(request)
        return R(PlainTextResponse("odd", 409))

    def on_403(request, exc):
        return R(PlainTextResponse("no", 403))

    class Klass(HTTPEndpoint):
        async def get(self, request):
            R(self)
            return R(PlainTextResponse("k"))

        def post(self, request):
            return R(PlainTextResponse("p"))

    async def redirect(request):
        return R(RedirectResponse(request.url_for("plain")))

    templates = Jinja2Templates(os.path.join(DIR["d"], "tpl"))

    async def template(request):
        return R(templates.TemplateResponse(request, "t.html", {"x": "1"}))

    def wsgi(environ, start_response):
        start_response("200 OK", [("content-type", "text/plain")])
        environ["wsgi.input"].read()
        return [b"w" * 100, environ["PATH_INFO"].encode()]

    def wsgi_raise(environ, start_response):
        start_response("200 OK", [])
        yield b"w"
        raise Boom("wsgi")

    async def session(request):
        if "session" in request.scope:
            request.session["n"] = request.session.get("n", 0) + 1
            request.session["path"] = str(request.url)
        return R(PlainTextResponse("s"))

    async def session_clear(request):
        if "session" in request.scope:
            request.session.clear()
        return R(PlainTextResponse("s"))

    @requires("authenticated", status_code=403) if "auth" in mws else (lambda f: f)
    async def auth(request):
        return R(PlainTextResponse("in"))

    async def raw(scope, receive, send):
        await R(PlainTextResponse("raw"))(scope, receive, send)

    async def nothing(scope, receive, send):
        pass

    async def schema(request):
        return R(JSONResponse(SchemaGenerator({"openapi": "3.0.0"}).get_schema(request.app.routes)))

    async def push(request):
        await request.send_push_promise("/plain")
        return R(PlainTextResponse("pushed"))

    async def unread(request):
        it = request.stream()
        async for _ in it:
            break
        return R(PlainTextResponse("unread"))

    async def depends(request):
        v = await anyio.to_thread.run_sync(lambda: "dep")
        return R(PlainTextResponse(v + str(request.url_for("wsr")) + str(request.url_for("any", p=request.url.query or "q"))))

    async def group(request):
        out = []

        async def part(i):
            await anyio.sleep(0)
            out.append(i)

        async with anyio.create_task_group() as tg:
            for i in range(3):
                tg.start_soon(part, i)
        return R(PlainTextResponse(str(len(out))))

    async def ws(websocket):
        R(websocket)
        await websocket.accept()
        async for t in websocket.iter_text():
            await websocket.send_text("echo " + t)

    class WSC(WebSocketEndpoint):
        encoding = "text"

        async def on_connect(self, websocket):
            R(self)
            R(websocket)
            await websocket.accept()

        async def on_receive(self, websocket, data):
            await websocket.send_text("echo " + data)

    async def ws_raise(websocket):
        await websocket.accept()
        await websocket.receive_text()
        raise Boom("ws")

    async def ws_exc(websocket):
        await websocket.accept()
        raise R(WebSocketException(4000, "why"))

    async def ws_never(websocket):
        R(websocket)

    async def ws_deny(websocket):
        await websocket.close(4001)

    async def ws_deny_http(websocket):
        if "websocket.http.response" in websocket.scope.get("extensions", {}):
            await websocket.send_denial_response(R(JSONResponse({"no": 1}, 403)))
        else:
            await websocket.close()

    async def ws_close(websocket):
        await websocket.accept()
        await websocket.send_bytes(b"x")
        await websocket.close(1001, "bye")

    async def ws_json(websocket):
        await websocket.accept()
        await websocket.send_json({"a": 1})
        try:
            await websocket.receive_json()
        except (WebSocketDisconnect, ValueError):
            pass
        else:
            await websocket.close()

    async def ws_binary(websocket):
        await websocket.accept()
        async for b in websocket.iter_bytes():
            await websocket.send_bytes(b)

    @requires("authenticated") if "auth" in mws else (lambda f: f)
    async def ws_auth(websocket):
        await websocket.accept()
        await websocket.close()

    # ---------------------------------------------------------------- middleware
    async def base(request, call_next):
        R(request)
        r = R(await call_next(request))
        r.headers["x-mw"] = "1"
        return r

    async def base_body(request, call_next):
        await request.body()
        return await call_next(request)

    async def base_early(request, call_next):
        if request.url.path.endswith(("plain", "form", "stream")):
            return R(PlainTextResponse("early"))
        return await call_next(request)

    async def base_raise_after(request, call_next):
        R(await call_next(request))
        raise Boom("after")

    async def base_drop(request, call_next):
        R(await call_next(request))
        return R(PlainTextResponse("replaced"))

    async def base_bg(request, call_next):
        r = R(await call_next(request))
        r.background = BackgroundTask(task, request)
        return r

    async def base_catch(request, call_next):
        try:
            return R(await call_next(request))
        except Boom as exc:
            return R(PlainTextResponse(repr(exc), 500))

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            scope.setdefault("state", {})["pure"] = scope["tok"] if "tok" in scope else 1
            await self.app(scope, receive, send)

    class Wrap:
        """changes every message on the way"""

        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            async def rcv():
                return dict(await receive())

            async def snd(m):
                await send(dict(m))

            await self.app(dict(scope), rcv, snd)

    make = {
        "gzip": lambda: Middleware(GZipMiddleware, minimum_size=100),
        "session": lambda: Middleware(SessionMiddleware, secret_key="k"),
        "cors": lambda: Middleware(CORSMiddleware, allow_origins=["https://a.org"], allow_credentials=True),
        "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
        "hosts": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["h", "testserver", "*.h"]),
        "pure": lambda: Middleware(Pure),
        "wrap": lambda: Middleware(Wrap),
    }
    for name, d in (("base", base), ("base-body", base_body), ("base-early", base_early), ("base-raise-after", base_raise_after), ("base-drop", base_drop), ("base-bg", base_bg), ("base-catch", base_catch)):
        make[name] = lambda d=d: Middleware(BaseHTTPMiddleware, dispatch=d)
    e = {"plain": plain, "json": json_, "sync": sync, "stream": stream, "syncstream": syncstream, "stream-raise": stream_raise, "file": file, "body": body_, "chunks": chunks, "form": form, "form-open": form_open, "form-limit": form_limit, "bg": bg, "bgs": bgs, "bg-raise": bg_raise, "raise": raise_, "raise-sync": raise_sync, "http-exc": http_exc, "handled": handled, "class": Klass, "redirect": redirect, "template": template, "session": session, "session-clear": session_clear, "auth": auth, "schema": schema, "push": push, "unread": unread, "depends": depends, "group": group}
    w = {"ws": ws, "ws-class": WSC, "ws-raise": ws_raise, "ws-exc": ws_exc, "ws-never": ws_never, "ws-deny": ws_deny, "ws-deny-http": ws_deny_http, "ws-close": ws_close, "ws-json": ws_json, "ws-binary": ws_binary, "ws-auth": ws_auth}
    routes = [Route("/" + k, f, methods=None if k == "class" else ["GET", "POST"], name={"json": "json"}.get(k, k)) for k, f in e.items()]
    routes += [WebSocketRoute("/" + k, f, name="wsr" if k == "ws" else k) for k, f in w.items()]
    routes += [Mount("/static", StaticFiles(directory=DIR["d"], html=True)), Mount("/wsgi", WSGIMiddleware(wsgi)), Mount("/wsgi-raise", WSGIMiddleware(wsgi_raise)), Mount("/raw", raw), Mount("/nothing", nothing), Mount("/m/{x}", routes=[Route("/plain/{y:int}", plain), WebSocketRoute("/ws", ws)], middleware=[Middleware(Pure)]), Mount("/sub", Starlette(routes=[Route("/plain", plain), Route("/handled", handled)], exception_handlers={Odd: on_odd})), Host("{s}.h", Router([Route("/plain", plain)])), Route("/any/{p:path}", plain, name="any")]
    return Starlette(debug=debug, routes=routes, middleware=[make[m]() for m in mws], exception_handlers={Odd: on_odd, 403: on_403})


def multipart(parts):
    return b"".join(b'--b\r\nContent-Disposition: form-data; name="' + n.encode() + b'"' + (b'; filename="x.txt"' if f else b"") + b"\r\n\r\n" + d + b"\r\n" for n, f, d in parts) + b"--b--\r\n"


def request_for(c, salt=0):
    """-> (scope, what the server has to deliver)"""
    k = c["kind"]
    if k in WS:
        scope = ws_scope("/" + (k if k != "ws-nope" else "nope"), [("host", "h")] + ([("authorization", "x")] if salt % 2 else []), **({"extensions": {"websocket.http.response": {}}} if c["at"] % 2 == 0 else {}))
        inbox = [{"type": "websocket.connect"}] + [{"type": "websocket.receive", "text": f'"m{i}"'} if k != "ws-binary" else {"type": "websocket.receive", "bytes": b"b"} for i in range(3)]
        return scope, inbox
    hs = [("host", "h"), ("origin", ["https://a.org", "https://b.org"][salt % 2]), ("accept-encoding", ["gzip", "identity"][salt % 3 == 0]), ("cookie", f"a=b; session=garbage{salt}")]
    path, method, data = "/" + k, "GET", b""
    if k in ("static", "static-304"):
        path = "/static/f%d.txt" % c["size"]
        if k == "static-304":
            hs.append(("if-modified-since", "Sun, 01 Jan 2090 00:00:00 GMT"))
    elif k == "file" and salt % 2:
        hs.append(("range", ["bytes=0-3,5-", "bytes=-2", "bytes=9999999-"][salt % 3]))
    elif k == "static-dir":
        path = "/static/sub"
    elif k == "static-404":
        path = "/static/none"
    elif k in ("body", "chunks", "unread", "wsgi"):
        method, data = "POST", b"B" * (c["size"] + 8)
    elif k in ("form", "form-open", "form-big", "form-bad", "form-limit"):
        method = "POST"
        hs.append(("content-type", "multipart/form-data; boundary=b"))
        data = multipart([("n%d" % i, i % 2, b"v" * (20 + i + (1100000 if k == "form-big" and i == 1 else 0))) for i in range(5)])
        if k == "form-bad":
            data = data.replace(b"\r\n\r\n", b"\r\r\n", 2)
        path = "/form" if k in ("form-big", "form-bad") else path
    elif k == "urlencoded":
        method, path, data = "POST", "/form", b"a=1&b=2&" + b"c=%20&" * 30
        hs.append(("content-type", "application/x-www-form-urlencoded"))
    elif k == "class-405":
        path, method = "/class", "DELETE"
    elif k == "mounted":
        path = ["/m/a/plain/5", "/sub/plain", "/sub/handled"][salt % 3]
    elif k == "host":
        path = "/plain"
        hs[0] = ("host", "s.h")
    elif k == "slash":
        path = "/plain/"
    elif k == "auth" and salt % 3:
        hs.append(("authorization", ["bad", "x"][salt % 2]))
    if k in ("wsgi", "wsgi-raise", "raw", "nothing"):
        path += "/x"
    n = max(1, len(data) // 4)
    parts = [data[i : i + n] for i in range(0, len(data), n)] or [b""]
    inbox = [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]
    return http_scope(method, path, hs, spec_version=c["spec"], extensions={"http.response.push": {}} if k == "push" else {}), inbox


class Server:
    """The server's side of one connection, which keeps nothing."""

    def __init__(self, c, inbox):
        self.c, self.inbox = c, inbox
        self.nr = self.ns = 0
        self.over = anyio.Event()
        self.finished = False
        self.ws = c["kind"] in WS

    async def receive(self):
        self.nr += 1
        if self.c["end"] == "gone-recv" and self.nr > self.c["at"]:
            self.inbox.clear()
            self.over.set()
        await anyio.lowlevel.checkpoint()
        if self.inbox:
            return self.inbox.pop(0)
        if self.ws:
            return {"type": "websocket.disconnect", "code": 1001}
        await self.over.wait()
        return {"type": "http.disconnect"}

    async def send(self, m):
        self.ns += 1
        if self.c["end"] == "fail-send" and self.ns > self.c["at"]:
            self.over.set()
            raise OSError("connection lost")
        if m["type"] == "http.response.body" and not m.get("more_body", False):
            self.finished = True
            self.over.set()
        if self.c["end"] == "gone-send" and self.ns >= self.c["at"]:
            self.inbox.clear()
            self.over.set()
        await anyio.lowlevel.checkpoint()


class Watch:
    """Warnings, unraisable errors and the loop's complaints."""

    def __enter__(self):
        self.seen = []
        self.w = warnings.catch_warnings(record=True)
        self.list = self.w.__enter__()
        warnings.simplefilter("always")
        self.old = sys.unraisablehook, threading.excepthook
        sys.unraisablehook = lambda a: self.seen.append("unraisable %r in %r" % (a.exc_value, a.object))
        threading.excepthook = lambda a: self.seen.append("thread: %r" % (a.exc_value,))
        return self

    def __exit__(self, *a):
        sys.unraisablehook, threading.excepthook = self.old
        self.w.__exit__(*a)

    def take(self):
        out = self.seen + [f"{w.category.__name__}: {w.message}" for w in self.list if issubclass(w.category, (RuntimeWarning, ResourceWarning))]
        self.seen.clear()
        self.list.clear()
        return out


def fds():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[fd] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass
    return out


class Generators:
    """Reading of request bodies, and which of it was left suspended for garbage collection to end (on trio, too late: an error)."""

    def __enter__(self):
        self.refs = []
        self.old = sys.get_asyncgen_hooks()
        sys.set_asyncgen_hooks(firstiter=self.first, finalizer=self.old.finalizer)
        return self

    def first(self, g):
        if "starlette" in g.ag_code.co_filename:
            self.refs.append(weakref.ref(g))
        if self.old.firstiter:
            self.old.firstiter(g)

    def __exit__(self, *a):
        sys.set_asyncgen_hooks(*self.old)

    def suspended(self):
        gs = [r() for r in self.refs]
        out = [g.ag_code.co_qualname for g in gs if g is not None and g.ag_frame is not None and g.ag_code.co_qualname == "Request.stream"]
        self.refs.clear()
        return out


async def serve(app, c, live, salt, generators=None):
    """One connection; leaves nothing but counts."""
    scope, inbox = request_for(c, salt)
    scope["tok"] = live.add(Token(), "scope")
    scope["size"] = c["size"]
    srv = Server(c, inbox)
    res = "completed"
    try:
        with anyio.fail_after(10):
            await app(scope, srv.receive, srv.send)
        if not srv.finished and not srv.ws:
            res = "unfinished"
    except TimeoutError:
        raise
    except Exception as exc:
        from vp.engine import _contains_timeout

        if _contains_timeout(exc):
            raise
        res = "raised " + type(exc).__name__
        if generators is not None:
            live.suspended = generators.suspended()
        del exc
    return res


def describe(refs):
    """What still refers to the first survivor, for the report."""
    for r, name in refs:
        o = r()
        if o is not None:
            chain = []
            cur = o
            for _ in range(6):
                rs = [x for x in gc.get_referrers(cur) if x is not refs and type(x).__name__ not in ("frame", "list_iterator", "tuple")]
                if not rs:
                    break
                cur = rs[0]
                chain.append(f"{type(cur).__module__}.{type(cur).__qualname__}" + (f" keys {list(cur)[:8]}" if isinstance(cur, dict) else ""))
            return f"{name} <- " + " <- ".join(chain)
    return ""


def run(case, mon):
    dict(history=run_history, flood=run_flood, client=run_client)[case["what"]](case, mon)
    tracking.FILES.clear()


def run_history(case, mon):
    live = Live()
    apps = [make_app(case["mws"], case["debug"], live)]
    outcomes = []
    trio = case["backend"] == "trio"
    if trio:
        mon.n("trio")

    async def main():
        loop_errors = []
        if not trio:
            loop = asyncio.get_running_loop()
            loop.set_exception_handler(lambda lp, ctx: loop_errors.append(str(ctx.get("message")) + " " + repr(ctx.get("exception"))))
        limiter = anyio.to_thread.current_default_thread_limiter()
        await anyio.to_thread.run_sync(lambda: None)
        with Watch() as watch, Generators() as generators:
            gc.collect()
            watch.take()
            before = None
            for i, c in enumerate(case["conns"]):
                live.refs, live.gens[0], live.gens[1] = [], 0, 0
                tracking.FILES.clear()
                if before is None:
                    before = set(fds())
                live.suspended = []
                res = await serve(apps[0], c, live, i, generators)
                mon.n("connections")
                outcomes.append((c["kind"], c["end"], res))
                what = f"connection {i} ({c['kind']}, {c['size']} bytes, {c['end']} {c['at'] if c['end'] != 'full' else ''}; {res}) through {case['mws']}"
                mon.n("completed" if res == "completed" and c["end"] == "full" else {"full": "completed", "gone-recv": "given up", "gone-send": "given up", "fail-send": "failed sends"}[c["end"]])
                if res.startswith("raised"):
                    mon.n("failed applications")
                    mon.ok(not live.suspended, "suspended", f"after {what}: left suspended: {live.suspended}")
                if c["kind"] in WS:
                    mon.n("websockets")
                if c["kind"].startswith("form"):
                    mon.n("uploads")
                # A file whose reading is cancelled is closed when it is freed: anyio does not shield its aclose().
                cut = c["end"] != "full" and any(m.startswith("base") for m in case["mws"]) or "base-drop" in case["mws"] or "base-raise-after" in case["mws"]
                if c["kind"] in ("file", "static", "static-404"):
                    mon.n("files")
                    served = [p for p in fds().values() if p.startswith(DIR["d"])]
                    mon.ok(cut or not served, "file-open", f"after {what}: still open: {served}")
                if live.gens[0]:
                    mon.n("streams")
                # finalisers of abandoned generators are short-lived tasks of the loop itself
                for _ in range(4):
                    await anyio.sleep(0)
                tracking.FILES.clear()
                gc.collect()
                for _ in range(12):
                    await anyio.sleep(0)
                # (a worker thread drops what it was given a moment after it reported its result)
                for wait in range(100):
                    left = [n for r, n in live.refs if r() is not None]
                    now = fds()
                    if not left and set(now) <= before and (trio or live.gens[0] == live.gens[1]):
                        break
                    await anyio.sleep(0.0005 * wait)
                    gc.collect()
                if not trio:
                    tasks = [t for t in asyncio.all_tasks() if t is not asyncio.current_task() and not t.done()]
                    mon.ok(not tasks, "tasks", f"after {what}: still running: {tasks}")
                    del tasks
                    mon.ok(live.gens[0] == live.gens[1], "generators", f"after {what}: {live.gens[0]} generators were started, {live.gens[1]} finished")
                    mon.n("generators finished", live.gens[1])
                mon.ok(limiter.borrowed_tokens == 0, "tokens", f"after {what}: {limiter.borrowed_tokens} threadpool tokens are held")
                mon.ok(not left, "objects", f"after {what}: {sorted(left)} still exist: {describe(live.refs) if left else ''}")
                mon.n("objects freed", len(live.refs) - len(left))
                said = [s for s in watch.take() if not (trio and "sync" in s and "generator" in s) and not (cut and "unclosed file" in s and DIR["d"] in s) and not (c["kind"] == "form-open" and "SpooledTemporaryFile" in s)]
                mon.ok(not said, "reported", f"after {what}: {said}")
                mon.ok(not loop_errors, "loop-errors", f"after {what}: {loop_errors}")
                loop_errors.clear()
                mon.ok(set(now) <= before, "descriptors", f"after {what}: new descriptors {[now[f] for f in now if f not in before]}")
            live.refs = []
            r = weakref.ref(apps[0])
            apps.clear()
            gc.collect()
            mon.ok(r() is None, "application", f"an application with {case['mws']} that served {sorted({c['kind'] for c in case['conns']})} is not freed: {describe([(r, 'application')]) if r() is not None else ''}")
            mon.n("applications freed")

    anyio.run(main, backend=case["backend"])
    mon.nontrivial(case["mws"], outcomes)


def flood_request(f, i):
    """The i-th connection of a flood: all of one kind, each with other values."""
    s = f"v{i}x"
    hs = [("host", "h"), ("accept-encoding", "gzip")]
    data, method, path, query = b"", "GET", "/plain", ""
    if f == "path":
        path = f"/any/{s}/y"
    elif f == "query":
        path, query = "/json", f"{s}={s}&b={i}"
    elif f == "host":
        hs[0] = ("host", f"{s}.h")
    elif f == "header":
        hs += [(f"x-{s}", s), ("user-agent", s), ("accept", s)]
    elif f == "cookie":
        hs.append(("cookie", f"{s}={s}; session={s}"))
        path = "/session"
    elif f == "session":
        path, query = "/session", s
        hs.append(("cookie", "session=" + SIGNER.sign(b64encode(json.dumps({"u": s, "n": i}).encode())).decode()))
    elif f == "auth":
        path = ["/auth", "/plain"][i % 2]
        hs.append(("authorization", "bad" if i % 3 == 0 else s))
    elif f == "form":
        path, method, data = "/form", "POST", f"{s}={s}&k={i}".encode()
        hs.append(("content-type", "application/x-www-form-urlencoded"))
    elif f == "multipart":
        path, method, data = "/form-open" if i % 2 else "/form", "POST", multipart([(s, 0, s.encode()), ("f" + s, 1, s.encode())])
        hs.append(("content-type", "multipart/form-data; boundary=b"))
    elif f == "static":
        path = "/static/f500.txt" if i % 2 else f"/static/{s}"
        hs.append(("if-none-match", f'"{s}"'))
    elif f == "range":
        path = "/file"
        hs += [("range", f"bytes={i % 400}-{i % 400 + i % 7}"), ("if-range", s)]
    elif f == "reverse":
        path = f"/m/{s}/plain/{i}" if i % 2 else "/redirect"
        hs[0] = ("host", f"{s}.org")
    elif f == "raise":
        path = f"/raise" if i % 2 else "/raise-sync"
    elif f == "http-exc":
        path = ["/http-exc", "/handled", f"/{s}"][i % 3]
    elif f == "stream":
        path = ["/stream", "/syncstream", "/stream-raise"][i % 3]
    elif f == "redirect":
        path = f"/m/{s}/plain/{i}/"
        query = s
    elif f == "method":
        path, method = "/class", f"M{i}"
    elif f == "origin":
        hs += [("origin", f"https://{s}.org"), ("access-control-request-method", s.upper()), ("access-control-request-headers", s)]
        method = "OPTIONS" if i % 2 else "GET"
    elif f == "body":
        path, method, data = ["/body", "/chunks"][i % 2], "POST", s.encode() * 20
    elif f == "background":
        path = ["/bg", "/bgs"][i % 2]
    elif f == "wsgi":
        path = f"/wsgi/{s}"
        hs.append((f"x-{s}", s))
    elif f == "template":
        path = "/template"
        hs[0] = ("host", f"{s}.org")
    elif f == "url":
        path, query = ["/redirect", "/depends"][i % 2], s
        hs[0] = ("host", f"{s}.org:8{i % 1000}")
    if f == "ws":
        return ws_scope("/m/%s/ws" % s if i % 2 else "/ws-class", [("host", "h"), ("x-" + s, s)], query=s), [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": s}]
    return http_scope(method, path, hs, query=query), [{"type": "http.request", "body": data, "more_body": False}]


def run_flood(case, mon):
    live = Live()

    class Forget(Live):
        def add(self, x, name=None):
            return x

    forget = Forget()
    app = make_app(case["mws"], False, forget)
    f = case["flood"]
    c = conn("ws" if f == "ws" else "plain")

    async def one(i):
        scope, inbox = flood_request(f, i)
        scope["size"] = 500
        srv = Server(c, inbox)
        try:
            with anyio.fail_after(10):
                await app(scope, srv.receive, srv.send)
        except (Boom, HTTPException, RuntimeError) as exc:
            del exc
        del scope, inbox, srv

    grown = []

    async def main():
        n = 0
        for _ in range(case["warm"]):
            n += 1
            await one(n)

        def size():
            tracking.FILES.clear()
            tracking.DISK_OPS.clear()
            gc.collect()
            return sys.getallocatedblocks()

        size()
        last = size()
        for _ in range(3):
            for _ in range(case["n"]):
                n += 1
                await one(n)
            for _ in range(10):
                await anyio.sleep(0)
            now = size()
            grown.append(now - last)
            last = now
        mon.n("connections", n)

    anyio.run(main)
    mon.n("floods")
    # one object or string per two connections, in every window
    mon.ok(min(grown) < case["n"] // 2, "growth", f"{case['n']} connections ({f}) through {case['mws']} leave {grown} allocated blocks behind, three times in a row")
    mon.nontrivial(f, case["mws"])


def run_client(case, mon):
    live = Live()
    script = case["script"]
    events = []
    mon.n("test clients")

    from contextlib import asynccontextmanager

    @asynccontextmanager
    async def lifespan(app):
        if script == "lifespan-fail":
            raise Boom("startup")
        yield {"res": live.add(Token(), "lifespan state")}
        if script == "lifespan-raise":
            raise Boom("shutdown")

    def go():
        app = make_app(case["mws"], False, live)
        app.router.lifespan_context = lifespan
        live.add(app, "application")

        async def tokened(scope, receive, send):
            scope["tok"] = live.add(Token(), "scope")
            await app(scope, receive, send)

        client = live.add(TestClient(tokened, backend=case["backend"], raise_server_exceptions=script != "raise-hidden"))

        def text(r):
            events.append(r.status_code)

        if script == "get":
            text(client.get("/plain"))
            text(client.get("/session"))
        elif script == "post":
            text(client.post("/body", content=b"x" * 1000))
        elif script == "upload":
            text(client.post("/form-open", files={"f": ("n.txt", b"x" * 100)}, data={"a": "b"}))
        elif script == "stream":
            text(client.get("/stream"))
            text(client.get("/syncstream"))
        elif script in ("raise", "raise-hidden"):
            text(client.get("/raise"))
        elif script.startswith("lifespan"):
            with client:
                text(client.get("/plain"))
                text(client.get("/sync"))
        elif script == "ws":
            with client.websocket_connect("/ws") as s:
                s.send_text("a")
                events.append(s.receive_text())
        elif script == "ws-open":
            s = client.websocket_connect("/ws")
            with s:
                s.send_text("a")
                s.send_text("b")
        elif script == "ws-raise":
            with client.websocket_connect("/ws-raise") as s:
                s.send_text("a")
                s.receive_text()
        elif script == "ws-deny":
            with client.websocket_connect("/ws-deny-http") as s:
                pass
        elif script == "ws-body-raises":
            with client.websocket_connect("/ws-class") as s:
                raise Boom("in the test")
        elif script == "cm-ws":
            with client:
                for _ in range(2):
                    with client.websocket_connect("/ws") as s:
                        s.send_text("a")
                        events.append(s.receive_text())
                text(client.get("/plain"))
        elif script == "redirect":
            text(client.get("/redirect"))
        elif script == "bg":
            text(client.get("/bgs"))
        elif script == "nested":
            with client:
                with client.websocket_connect("/ws") as s, client.websocket_connect("/ws-class") as s2:
                    s.send_text("a")
                    s2.send_text("b")
                    events.append(s2.receive_text())
                    text(client.get("/sync"))

    # the first run starts what the libraries keep
    with Watch() as watch:
        before_fds = before_threads = None
        for i in range(case["n"] + 1):
            live.refs = []
            live.gens[:] = [0, 0]
            try:
                go()
            except Exception as exc:
                from vp.engine import _contains_timeout

                if _contains_timeout(exc):
                    raise
                events.append(type(exc).__name__)
                del exc
            tracking.FILES.clear()
            gc.collect()
            end = time.monotonic() + 3
            while before_threads is not None and time.monotonic() < end and len([t for t in threading.enumerate() if t not in before_threads]) > 0 and case["backend"] == "asyncio":
                time.sleep(0.002)  # worker threads end on their own
            what = f"a test client ({script}, {case['backend']}) through {case['mws']}"
            now_fds = fds()
            threads = [t for t in threading.enumerate()]
            if before_fds is None:
                before_fds, before_threads = set(now_fds), threads
            else:
                mon.n("threads")
                extra = [t.name for t in threads if t not in before_threads and "trio" not in t.name.lower()]
                mon.ok(not extra, "threads", f"after {what}: threads {extra} are still running")
                mon.ok(set(now_fds) <= before_fds, "descriptors", f"after {what}: new descriptors {[now_fds[x] for x in now_fds if x not in before_fds]}")
            left = [n for r, n in live.refs if r() is not None]
            for wait in range(100):
                if not left or case["backend"] == "trio":
                    break
                time.sleep(0.0005 * wait)
                gc.collect()
                left = [n for r, n in live.refs if r() is not None]
            if case["backend"] == "asyncio":
                mon.ok(not left, "objects", f"after {what}: {sorted(left)} still exist: {describe(live.refs) if left else ''}")
            mon.n("objects freed", len(live.refs) - len(left))
            said = [s for s in watch.take() if not (case["backend"] == "trio" and "generator" in s) and not (script == "upload" and "SpooledTemporaryFile" in s)]
            mon.ok(not said, "reported", f"after {what}: {said}")
    mon.nontrivial(script, case["mws"], case["backend"], events)
