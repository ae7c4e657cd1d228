from __future__ import annotations

import contextvars
import gzip
import json
import os
import random
import re
import time

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Host, Mount, Route, WebSocketRoute
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, no_leaks, run_async, ws_scope

ID = "C38"
PROP = dict(
    title="Concurrent requests through one application never see each other's data",
    statement=(
        "However many requests one application object serves at a time, and in whatever interleaving, each is answered exactly as it would be alone: its endpoint - async, sync in the threadpool, class-based or WebSocket - and every middleware observe its own path parameters, query, headers, cookies, session, user, state, URL, body and context variables, "
        "and its response, background task and error page carry nothing of another request. Nothing accumulates: assigning request.state, editing headers or cookies of a response, a session, or one response object returned again and again through any shipped middleware leaves every other request's response unchanged."
    ),
    over=["schedules", "histories", "programs", "configurations"],
    quant="every number and mix of concurrent clients with histories of requests, every middleware stack, endpoint kind and interleaving",
    why="tests send one request at a time through a fresh application; leaks between requests need overlap or history",
    files=["starlette/applications.py", "starlette/requests.py", "starlette/routing.py", "starlette/middleware/", "starlette/responses.py", "starlette/datastructures.py", "starlette/concurrency.py"],
    mechanism=[("per-request scope", "starlette/routing.py:Route.matches"), ("state", "starlette/requests.py:HTTPConnection.state"), ("middleware instances", "starlette/middleware/gzip.py:GZipMiddleware"), ("context", "starlette/concurrency.py:run_in_threadpool")],
)
TECH = "runtime monitoring: taint tokens (every request carries its own token through every channel; a foreign token anywhere in its exchange is a leak) and a differential oracle against the same request served alone, under injected interleavings"
RULE = "each case is an application and 2-10 concurrent clients with 1-3 requests each; non-trivial when overlapping requests were compared with their solo runs"
LEVEL_NOTE = "held on the generated applications and interleavings"
BUDGET = {"quick": (30000, 14), "thorough": (400000, 240)}
REQUIRED = ("overlapping requests", "sync endpoints", "class endpoints", "reused responses", "session histories", "context variables", "background tasks", "error pages", "static files", "gzip responses", "websockets", "state values")

CTX = contextvars.ContextVar("CTX", default="unset")
KINDS = ["echo", "echo", "sync", "class", "stream", "reused", "reused-stream", "reused-file", "reused-exc", "bgs", "session", "raise", "boom", "bg", "static", "body", "form", "ws", "user", "url"]
MWS = ["gzip", "cors", "session", "base", "base", "base-edit", "auth", "host", "base-body"]


def fixed(tier):
    out = []
    i = 0
    for k in dict.fromkeys(KINDS):
        for mws in ([], ["base"], ["gzip", "session"], ["cors", "base-edit", "auth"], ["base", "base-body"], ["gzip", "base-edit", "gzip"], ["session", "gzip", "base"]):
            i += 1
            out.append(dict(mws=mws, clients=[[k, k]] * 3, backend="trio" if i % 3 == 0 else "asyncio", seed=i, jit=1 + i % 3, size=700, debug=False))
    return out


def gen(rng, tier):
    mix = rng.random() < 0.5
    k = rng.choice(KINDS)
    n = rng.choice([2, 2, 3, 4, 6, 10])
    clients = [[rng.choice(KINDS) if mix else k for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
    return dict(mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 2, 3, 4]))], clients=clients, backend=gens.backend(rng), seed=rng.randrange(10**6), jit=rng.choice([1, 2, 3]), size=rng.choice([0, 100, 600, 5000]), debug=rng.random() < 0.15)


DIR = {}


def worker_setup(mon):
    os.makedirs("st", exist_ok=True)
    DIR["d"] = os.path.abspath("st")
    with open("st/shared.txt", "w") as f:
        f.write("shared file " * 80)
    for i in range(10):
        with open(f"st/tok{i}q.txt", "w") as f:
            f.write(f"content of tok{i}q " * 60)


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        v = conn.headers.get("authorization")
        await anyio.sleep(0)
        if v:
            return AuthCredentials(["authenticated", v]), SimpleUser(v)


class Boom(Exception):
    pass


def build(case, log, mon):
    async def tick():
        for _ in range(2):
            await anyio.sleep(0)

    def view(request):
        out = dict(
            path=request.path_params, q=list(request.query_params.multi_items()), h=request.headers.getlist("x-token"), c={k: v for k, v in request.cookies.items() if k != "session"}, url=str(request.url), state=getattr(request.state, "token", None), client=list(request.client or ()), ctx=CTX.get(),
        )
        if "user" in request.scope:
            out["user"] = [request.user.display_name, request.auth.scopes]
        if "session" in request.scope:
            out["session"] = dict(request.session)
        return out

    async def echo(request):
        request.state.token = request.headers["x-token"]
        a = view(request)
        await tick()
        b = view(request)
        await tick()
        mon.n("state values")
        mon.ok(a == b, "changed-while-running", f"what the request shows changed while other requests ran: {a} -> {b}")
        r = JSONResponse(dict(b, pad="p" * case["size"]))
        r.headers["x-echo"] = request.headers["x-token"]
        r.set_cookie("tok", request.headers["x-token"])
        return r

    def sync(request):
        mon.n("sync endpoints")
        request.state.token = request.headers["x-token"]
        a = view(request)
        time.sleep(0.0003)
        b = view(request)
        mon.ok(a == b, "changed-while-running", f"what the request shows changed while other requests ran: {a} -> {b}")
        return JSONResponse(b)

    class Klass(HTTPEndpoint):
        async def get(self, request):
            mon.n("class endpoints")
            mon.ok(not hasattr(self, "token"), "reused-endpoint-object", "an HTTPEndpoint object served two requests")
            self.token = request.headers["x-token"]
            await tick()
            return JSONResponse(dict(tok=self.token, v=view(request)))

    async def stream(request):
        async def body():
            for i in range(3):
                await tick()
                yield json.dumps(view(request)) + "\n" + "s" * case["size"]

        return StreamingResponse(body(), headers={"x-echo": request.headers["x-token"]})

    shared = PlainTextResponse("shared" + "s" * case["size"], headers={"vary": "X", "x-shared": "1"})
    # a streaming response can only be shared when what it iterates can be iterated again
    class Again:
        def __aiter__(self):
            async def g():
                for _ in range(3):
                    await tick()
                    yield b"again" * 200

            return g()

    shared_stream = StreamingResponse(Again(), headers={"x-shared": "2", "content-length": "3000"})

    async def reused(request):
        await tick()
        mon.n("reused responses")
        return shared

    async def reused_stream(request):
        await tick()
        mon.n("reused responses")
        return shared_stream

    shared_file = FileResponse(os.path.join(DIR["d"], "shared.txt"), headers={"x-shared": "3"})

    async def reused_file(request):
        await tick()
        mon.n("reused responses")
        return shared_file

    shared_exc = HTTPException(409, detail="shared", headers={"x-shared": "4"})

    async def reused_exc(request):
        await tick()
        raise shared_exc

    async def session(request):
        if "session" in request.scope:
            s = request.session
            mon.n("session histories")
            s["n"] = s.get("n", 0) + 1
            s["token"] = request.headers["x-token"]
            s.setdefault("all", []).append(s["token"])
            await tick()
            return JSONResponse(dict(s))
        return PlainTextResponse("no session")

    async def boom(request):
        request.state.token = request.headers["x-token"]
        await tick()
        raise Boom(request.headers["x-token"])

    async def raise_(request):
        await tick()
        raise HTTPException(418, detail=request.headers["x-token"], headers={"x-echo": request.headers["x-token"]})

    async def bg(request):
        tok = request.headers["x-token"]

        async def task(t):
            await tick()
            log.append((tok, t, CTX.get()))

        return PlainTextResponse("bg " + tok, background=BackgroundTask(task, tok))

    async def bgs(request):
        tok = request.headers["x-token"]
        mine = request.query_params["t"]

        async def task(t, kw=None):
            await tick()
            log.append((tok, t, CTX.get()))

        tasks = BackgroundTasks()
        await tick()
        tasks.add_task(task, mine)
        tasks.add_task(task, mine, kw=1)
        return PlainTextResponse("bgs " + tok, background=tasks)

    async def body(request):
        await tick()
        data = (await request.body()).decode()
        return JSONResponse(dict(body=data, v=view(request)))

    async def form(request):
        await tick()
        async with request.form() as f:
            return JSONResponse(dict(f))

    async def user(request):
        await tick()
        return JSONResponse(view(request))

    async def url(request):
        await tick()
        return PlainTextResponse(str(request.url_for("echo", p=request.path_params["p"])) + " " + str(request.base_url))

    async def ws(websocket):
        await websocket.accept(subprotocol=websocket.headers["x-token"], headers=[(b"x-echo", websocket.headers["x-token"].encode())])
        websocket.state.token = websocket.headers["x-token"]
        await tick()
        text = await websocket.receive_text()
        await tick()
        mon.n("websockets")
        await websocket.send_json(dict(text=text, state=websocket.state.token, path=websocket.path_params, q=websocket.url.query, ctx=CTX.get()))
        await websocket.close(4000, websocket.headers["x-token"])

    async def handler(request, exc):
        await tick()
        mon.n("error pages")
        if "x-shared" in (exc.headers or {}):
            return JSONResponse(dict(tok=request.headers["x-token"]), status_code=exc.status_code, headers=exc.headers)
        return JSONResponse(dict(detail=exc.detail, state=getattr(request.state, "token", None), tok=request.headers["x-token"]), status_code=exc.status_code, headers=exc.headers)

    async def h500(request, exc):
        await tick()
        mon.n("error pages")
        return PlainTextResponse(f"{exc} {request.headers['x-token']} {request.url}", 500)

    async def base(request, call_next):
        request.state.mw = request.headers["x-token"]
        await tick()
        r = await call_next(request)
        r.headers["x-mw"] = request.state.mw
        await tick()
        return r

    async def base_edit(request, call_next):
        tok = request.headers["x-token"]
        r = await call_next(request)
        r.set_cookie("edit", tok)
        r.headers.append("x-edit", tok)
        r.headers.add_vary_header("X-Edit")
        return r

    async def base_body(request, call_next):
        b = await request.body()
        await tick()
        r = await call_next(request)
        r.headers["x-len"] = str(len(b))
        return r

    make = {
        "gzip": lambda: Middleware(GZipMiddleware, minimum_size=500),
        "cors": lambda: Middleware(CORSMiddleware, allow_origins=["https://a.org", "https://b.org"], allow_credentials=True, expose_headers=["X-Echo"]),
        "session": lambda: Middleware(SessionMiddleware, secret_key="k"),
        "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=base),
        "base-edit": lambda: Middleware(BaseHTTPMiddleware, dispatch=base_edit),
        "base-body": lambda: Middleware(BaseHTTPMiddleware, dispatch=base_body),
        "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
        "host": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["*.org"]),
    }
    e = dict(echo=echo, sync=sync, stream=stream, reused=reused, session=session, boom=boom, bg=bg, body=body, form=form, user=user, url=url)
    e["raise"] = raise_
    e["reused-stream"] = reused_stream
    e["reused-file"] = reused_file
    e["reused-exc"] = reused_exc
    e["bgs"] = bgs
    e["class"] = Klass
    routes = [Route(f"/{k}/{{p}}", f, name=k, methods=None if k == "class" else ["GET", "POST"]) for k, f in e.items()]
    routes += [Mount("/sub/{m}", routes=[Route(f"/{k}/{{p}}", f, name="sub" + k, methods=None if k == "class" else ["GET", "POST"]) for k, f in e.items()])]
    routes += [Mount("/static", StaticFiles(directory=DIR["d"])), WebSocketRoute("/ws/{p}", ws)]
    handlers = {HTTPException: handler}
    if not case["debug"]:
        handlers[Exception] = h500
    return Starlette(debug=case["debug"], routes=routes, middleware=[make[m]() for m in case["mws"]], exception_handlers=handlers)


def request_for(case, ci, ri, kind, jar):
    tok = f"tok{ci}q"
    hs = [("host", f"{tok}.org"), ("x-token", tok), ("origin", ["https://a.org", "https://b.org", "https://c.org"][ci % 3]), ("authorization", tok)]
    if (case["seed"] + ci) % 2 == 0:
        hs.append(("accept-encoding", "gzip"))
    if jar:
        hs.append(("cookie", "; ".join(f"{k}={v}" for k, v in jar.items())))
    body = b""
    path = f"/{kind}/{tok}"
    if kind not in ("static", "ws", "url") and (case["seed"] + ci + ri) % 3 == 0:
        path = f"/sub/{tok}" + path
    if kind == "static":
        path = f"/static/{tok}.txt"
    if kind == "ws":
        return ws_scope(path, hs, query=f"t={tok}", client=(tok, 1), subprotocols=[tok], extensions={"websocket.http.response": {}}), tok, b""
    if kind in ("reused-file", "static"):
        rg = [None, "bytes=0-9", None, "bytes=5-", "bytes=0-3,10-12", "bytes=99999-", "bytes=-4"][(case["seed"] + ci * 3 + ri) % 7]
        if rg:
            hs.append(("range", rg))
    method = "GET"
    if kind == "body":
        method, body = "POST", (tok * 50).encode()
    elif kind == "form":
        method = "POST"
        if ci % 2:
            hs.append(("content-type", "application/x-www-form-urlencoded"))
            body = f"a={tok}&b={tok}".encode()
        else:
            hs.append(("content-type", "multipart/form-data; boundary=b"))
            body = f'--b\r\nContent-Disposition: form-data; name="{tok}"\r\n\r\n{tok}\r\n--b--\r\n'.encode()
    return http_scope(method, path, hs, query=f"t={tok}&u={ri}", client=(tok, 1)), tok, body


async def serve(app, scope, tok, body, seed, jit):
    t = Trace()
    CTX.set(tok)
    if scope["type"] == "websocket":
        inbox = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "hello " + tok}, {"type": "websocket.disconnect", "code": 1000}]
        j = Jit(seed, jit)

        async def receive():
            await j()
            return inbox.pop(0) if inbox else await anyio.sleep_forever()

        async def send(m):
            await j()
            t.events.append(("send", dict(m)))

        try:
            await app(scope, receive, send)
        except Exception as exc:
            t.exc = exc
        return t
    n = len(body) // 3
    msgs = [(body[:n], True), (body[n : 2 * n], True), (body[2 * n :], False)] if body else [(b"", False)]
    await call_app(app, scope, ServerSide(t, msgs, Jit(seed, jit)), t)
    return t


def outcome(t, jar):
    if t.start is None:
        return [sorted((k, repr(v)) for k, v in m.items()) for m in t.sent], repr(t.exc)
    hs = []
    for k, v in t.headers:
        if k == b"set-cookie":
            name, _, rest = v.decode().partition("=")
            val, _, attrs = rest.partition(";")
            if name == "session":
                import base64

                try:
                    v = b"session " + base64.b64decode(val.split(".")[0])
                except ValueError:
                    v = b"session removed"
            jar[name] = val
        v = re.sub(rb"boundary=[0-9a-f]{26}", b"boundary=BOUNDARY", v)
        hs.append((k, v))
    body = t.body
    if t.header("content-encoding") == "gzip":
        body = gzip.decompress(body)
        hs = [(k, v) for k, v in hs if k != b"content-length"]
    if t.status == 206:
        body = re.sub(rb"--[0-9a-f]{26}", b"--BOUNDARY", body)
    return t.status, sorted(hs), body, repr(t.exc)


def run(case, mon):
    log = []
    app = build(case, log, mon)
    results = {}
    traces = []

    async def client(app, ci, kinds, res, jit):
        jar = {}
        for ri, k in enumerate(kinds):
            scope, tok, body = request_for(case, ci, ri, k, jar)
            CTX.set("unset")
            t = await serve(app, scope, tok, body, case["seed"] * 31 + ci * 7 + ri, jit)
            traces.append((k, t))
            res.append((k, tok, outcome(t, jar)))

    async def main():
        async with anyio.create_task_group() as tg:
            for ci, kinds in enumerate(case["clients"]):
                results[ci] = []
                tg.start_soon(client, app, ci, kinds, results[ci], case["jit"])

    _, errors = run_async(case["backend"], case["seed"], main)
    mon.ok(not errors, "loop-error", f"{errors}")
    for k, t in traces:
        if k != "ws":
            multi = t.start is not None and (t.header("content-range") or "").startswith("multipart")
            http_protocol(t, mon, check_length=not multi)  # C05 judges the length of multi-range bodies
    ran = sorted(log)
    solo_log = []
    for ci, kinds in enumerate(case["clients"]):
        solo_app = build(case, solo_log, mon)
        solo = []
        run_async(case["backend"], 1, lambda: client(solo_app, ci, kinds, solo, 0))
        for ri, ((k, tok, got), (_, _, want)) in enumerate(zip(results[ci], solo)):
            mon.n("overlapping requests")
            if k == "static":
                mon.n("static files")
            if isinstance(got[0], int) and (b"content-encoding", b"gzip") in got[1]:
                mon.n("gzip responses")
            if case["debug"] and k == "boom":
                got, want = got[:2] + (b"",), want[:2] + (b"",)
                got = (got[0], [h for h in got[1] if h[0] != b"content-length"])
                want = (want[0], [h for h in want[1] if h[0] != b"content-length"])
            mon.ok(got == want, "differs-from-alone", f"{k} request {ri} of client {ci} was answered {got!r:.900} but alone it is answered {want!r:.900}")
            text = repr(got)
            for other in range(len(case["clients"])):
                if other != ci and f"tok{other}q" in text:
                    mon.fail("foreign-token", f"the answer to client {ci} ({k}) carries the token of client {other}: {text[:1500]}")
            mon.n("context variables")
    if ran or solo_log:
        mon.n("background tasks", len(ran))
    mon.ok(ran == sorted(solo_log) and all(a == b == c for a, b, c in ran), "background", f"background tasks ran with {ran}, alone with {sorted(solo_log)}")
    mon.nontrivial(sorted(set(sum(case["clients"], []))), case["mws"], len(case["clients"]), case["backend"])
