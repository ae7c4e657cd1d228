from __future__ import annotations

import os
import random

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.formparsers import MultiPartException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, drive, http_protocol, http_scope, no_leaks, run_async

ID = "C01"
PROP = dict(
    title="Every HTTP exchange is one well-formed ASGI response, however composed",
    statement=(
        "For every composition of the shipped routing, endpoints, responses and middleware, every request and every schedule, a request is answered by exactly one well-formed message sequence: one http.response.start (integer status, lower-case byte-string header pairs, at most one Content-Length) "
        "before any body, body messages of bytes, exactly one final body message and nothing after it, with as many body bytes as Content-Length declares. An application whose endpoint raises before responding still answers (500 or the handler's response), one that fails midway is never marked as complete, "
        "and no exception other than the endpoint's own escapes. When the client disconnects or the server's send fails, whatever was sent is still the beginning of a well-ordered sequence, the application ends, and no task outlives it."
    ),
    over=["programs", "inputs", "schedules", "fault_sequences"],
    quant="every stack of middleware up to 5 deep, nesting of routers, endpoint and response kind, method and header set, message division, point of failure, disconnect or send error, interleaving",
    why="tests drive single components over a test client that hides message boundaries; protocol faults come from combinations and timing",
    files=["starlette/applications.py", "starlette/responses.py", "starlette/routing.py", "starlette/middleware/", "starlette/staticfiles.py", "starlette/_exception_handler.py"],
    mechanism=[("application", "starlette/applications.py:Starlette.__call__"), ("responses", "starlette/responses.py"), ("middleware", "starlette/middleware/base.py:BaseHTTPMiddleware.__call__"), ("exceptions", "starlette/_exception_handler.py:wrap_app_handling_exceptions")],
)
TECH = "runtime monitoring: an online automaton of the ASGI response protocol on the server boundary of randomly composed applications, with injected scheduling, disconnects, send errors and endpoint failures"
RULE = "each case is a random application (middleware stack, routing, endpoint) and up to 4 concurrent requests; non-trivial when messages were judged"
LEVEL_NOTE = "held on the generated compositions; multi-range file responses are left to C05"
BUDGET = {"quick": (60000, 14), "thorough": (800000, 240)}
REQUIRED = ("responses judged", "failures before response", "failures midway", "disconnects", "send errors", "HEAD requests", "push promises", "gzip bodies", "file responses", "concurrent", "deep stacks", "debug messages", "answered by middleware")


class Boom(Exception):
    pass


MWS = ["gzip", "gzip", "cors", "session", "host", "https", "base", "base", "base-hdr", "base-short", "base-swap", "base-body", "auth", "exc", "pure"]
KINDS = ["plain", "json", "html", "empty", "204", "304", "redirect", "stream", "stream", "syncstream", "file", "static", "raw", "raw", "http-exc", "boom", "boom-mid", "handled", "class", "push", "mount404", "reused", "body-read", "form-read", "session", "bg", "bg-boom", "asgi-class", "405", "gen-empty", "noheaders"]
SIZES = [0, 1, 20, 499, 500, 501, 4000, 65535, 65536, 70000, 140000]


def fixed(tier):
    out = []
    i = 0
    for k in dict.fromkeys(KINDS):
        for mws in ([], ["base"], ["gzip"], ["base", "gzip"], ["gzip", "base"], ["base", "base"], ["session", "cors", "base-hdr"], ["pure", "exc"], ["gzip", "gzip"], ["base-body", "gzip"], ["gzip", "base-swap"]):
            for method in ("GET", "HEAD"):
                i += 1
                out.append(dict(kind=k, mws=mws, wrap="app", size=[500, 501, 4000][i % 3], chunks=3, backend="trio" if i % 3 == 0 else "asyncio", seed=i, jit=i % 3, fault=None, fault_at=0, debug=i % 5 == 0,
                                reqs=[dict(method=method, headers=[["accept-encoding", "gzip"]])], ext=i % 2 == 0, bodylen=10, msgs=2))
    for k in ("plain", "stream", "file", "form-read", "json"):
        for fault in ("send-error", "disc-sends", "disc-recv"):
            for at in (0, 1, 2):
                i += 1
                out.append(dict(kind=k, mws=[[], ["base"], ["session"]][i % 3], wrap="app", size=500, chunks=3, backend="asyncio", seed=1 + 3 * i, jit=i % 3, fault=fault, fault_at=at, debug=False, reqs=[dict(method="POST", headers=[])], ext=False, bodylen=10, msgs=2))
    return out


def gen(rng, tier):
    reqs = []
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        hs = []
        if rng.random() < 0.6:
            hs.append(["accept-encoding", rng.choice(["gzip", "gzip, br", "br", "gzip;q=0", "*"])])
        if rng.random() < 0.3:
            hs.append(["origin", rng.choice(["https://a.org", "https://b.org"])])
        if rng.random() < 0.15:
            hs.append(["access-control-request-method", "GET"])
        if rng.random() < 0.25:
            hs.append(["range", rng.choice(["bytes=0-0", "bytes=5-", "bytes=-3", "bytes=0-100000000", "bytes=99999999-", "bytes=b", "bytes=3-1", "items=0-1"])])
        if rng.random() < 0.15:
            hs.append(["if-none-match", rng.choice(['"x"', "*", 'W/"y", "z"'])])
        if rng.random() < 0.1:
            hs.append(["if-modified-since", rng.choice(["Wed, 21 Oct 2065 07:28:00 GMT", "Wed, 21 Oct 2015 07:28:00 GMT", "junk"])])
        if rng.random() < 0.2:
            hs.append(["cookie", rng.choice(["session=junk", "a=b", "session=e30=.abc.def", "csrftoken=1"])])
        if rng.random() < 0.2:
            hs.append(["authorization", rng.choice(["ok", "bad", "boom"])])
        if rng.random() < 0.2:
            hs.append(["accept", rng.choice(["text/html", "application/json"])])
        if rng.random() < 0.3:
            hs.append(["content-type", rng.choice(["application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "text/plain"])])
        reqs.append(dict(method=rng.choice(["GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "PUT", "PURGE"]), headers=hs))
    return dict(
        kind=rng.choice(KINDS), mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))], wrap=rng.choice(["app", "app", "app", "app-inner", "router", "bare"]),
        size=rng.choice(SIZES), chunks=rng.choice([0, 1, 2, 3, 7]), backend=gens.backend(rng), seed=rng.randrange(10**6), jit=rng.choice([0, 0, 1, 2, 3]),
        fault=rng.choice([None] * 6 + ["disc-sends", "disc-sends", "disc-recv", "send-error"]), fault_at=rng.randrange(0, 6), debug=rng.random() < 0.2, reqs=reqs, ext=rng.random() < 0.4, bodylen=rng.choice([0, 0, 5, 100, 3000]), msgs=rng.choice([1, 2, 5]),
        place=rng.choice(["app", "app", "mount", "route", "host"]),
    )


FILES = {}


def worker_setup(mon):
    os.makedirs("static/sub", exist_ok=True)
    for n in SIZES:
        with open(f"static/f{n}.txt", "wb") as f:
            f.write(b"z" * n)
    with open("static/sub/index.html", "w") as f:
        f.write("<p>index")
    with open("static/404.html", "w") as f:
        f.write("<p>404")
    FILES["dir"] = os.path.abspath("static")


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        v = conn.headers.get("authorization")
        await anyio.sleep(0)
        if v == "bad":
            raise AuthenticationError("bad")
        if v == "ok":
            return AuthCredentials(["authenticated"]), SimpleUser("u")


class Pure:
    def __init__(self, app):
        self.app = app

    async def __call__(self, scope, receive, send):
        await self.app(scope, receive, send)


def build(case, state):
    k, size = case["kind"], case["size"]
    nch = case["chunks"]

    async def tick():
        await anyio.sleep(0)

    def chunks():
        per = size // nch if nch else 0
        return [b"c" * per for _ in range(nch)] + ([b"d" * (size - per * nch)] if nch else [])

    def bg(boom=False):
        async def task():
            await tick()
            state["bg"] = state.get("bg", 0) + 1
            if boom:
                raise Boom("background")

        return BackgroundTask(task)

    shared = PlainTextResponse("s" * size)

    async def endpoint(request):
        await tick()
        def own(n, media):
            # headers that Starlette would set, given by the application in its own spelling
            return [None, {"Content-Length": str(n)}, {"content-length": str(n)}, {"Content-Type": media}, {"CONTENT-LENGTH": str(n), "Content-type": media}][case["seed"] % 5]

        if k == "plain":
            return PlainTextResponse("a" * size, headers=own(size, "text/x"))
        if k == "json":
            return JSONResponse({"a": "b" * size}, headers=own(size + 8, "application/x"))
        if k == "html":
            return HTMLResponse("<p>" + "a" * size, headers=own(size + 3, "text/x"))
        if k == "empty":
            return Response()
        if k == "204":
            return Response(status_code=204)
        if k == "304":
            return Response(status_code=304, headers={"etag": '"x"'})
        if k == "redirect":
            return RedirectResponse("/other", background=bg())
        if k in ("stream", "gen-empty", "boom-mid"):

            async def gen():
                if k != "gen-empty":
                    for i, c in enumerate(chunks()):
                        await tick()
                        if k == "boom-mid" and i == len(chunks()) // 2:
                            request.scope["vp"]["boom"] = "mid"
                            raise Boom("mid")
                        yield c
                if k == "boom-mid":
                    request.scope["vp"]["boom"] = "mid"
                    raise Boom("mid")

            return StreamingResponse(gen(), background=bg() if size % 2 else None, headers={"content-length": str(sum(map(len, chunks())))} if case["seed"] % 3 == 0 and k == "stream" else None)
        if k == "syncstream":
            return StreamingResponse(iter(chunks()), media_type="text/event-stream" if size == 20 else "text/plain")
        if k == "file":
            return FileResponse(os.path.join(FILES["dir"], f"f{size}.txt"), filename="é.txt" if size == 20 else None, background=bg())
        if k == "http-exc":
            raise HTTPException([400, 404, 418, 503, 204, 304][case["seed"] % 6], headers={"X-Y": "z"} if size % 2 else None)
        if k == "boom":
            request.scope["vp"]["boom"] = "before"
            raise Boom("before")
        if k == "handled":
            raise KeyError("x")
        if k == "push":
            await request.send_push_promise("/style.css")
            await tick()
            return PlainTextResponse("a" * size)
        if k == "reused":
            return shared
        if k == "body-read":
            n = 0
            async for c in request.stream():
                n += len(c)
            return PlainTextResponse(str(n))
        if k == "form-read":
            async with request.form() as form:
                return JSONResponse({"n": len(form)})
        if k == "session":
            if "session" in request.scope:
                request.session["a"] = request.session.get("a", 0) + 1
            r = PlainTextResponse("x")
            r.set_cookie("k", "v")
            r.delete_cookie("l")
            return r
        if k == "bg":
            tasks = BackgroundTasks()
            tasks.add_task(lambda: None)
            tasks.add_task(tick)
            return PlainTextResponse("a" * size, background=tasks)
        if k == "bg-boom":
            request.scope["vp"]["boom"] = "bg"
            return PlainTextResponse("a" * size, background=bg(True))
        return PlainTextResponse("other")

    class Endpoint(HTTPEndpoint):
        async def get(self, request):
            return await endpoint(request)

        def post(self, request):
            return PlainTextResponse("sync" * 100)

    async def raw(scope, receive, send):
        if case["debug"] and "http.response.debug" in scope.get("extensions", {}):
            await send({"type": "http.response.debug", "info": {"template": None, "context": {}}})
        msg = {"type": "http.response.start", "status": 200, "headers": [(b"x-raw", b"1"), (b"content-type", b"text/plain")]}
        if k == "noheaders":
            del msg["headers"]
        elif case["seed"] % 2 and nch:
            msg["headers"].append((b"content-length", str(size).encode()))
        await send(msg)
        cs = chunks()
        for i, c in enumerate(cs):
            await tick()
            m = {"type": "http.response.body", "body": c}
            if i < len(cs) - 1:
                m["more_body"] = True
            await send(m)
        if not cs:
            await send({"type": "http.response.body"})

    class AsgiClass:
        def __init__(self, scope, receive, send):
            self.s = scope, receive, send

        def __await__(self):
            return PlainTextResponse("k" * size)(*self.s).__await__()

    methods = ["GET", "POST", "PUT", "OPTIONS", "PURGE"] if k != "405" else ["PATCH"]
    if k == "static":
        routes = [Mount("/", StaticFiles(directory=FILES["dir"], html=case["seed"] % 2 == 0))]
    elif k in ("raw", "noheaders"):
        routes = [Mount("/", raw)]
    elif k == "asgi-class":
        routes = [Mount("/", AsgiClass)]
    elif k == "class":
        routes = [Route("/{p:path}", Endpoint)]
    elif k == "mount404":
        routes = [Mount("/sub", routes=[Route("/x", endpoint)]), Route("/y/", endpoint)]
    else:
        routes = [Route("/{p:path}", endpoint, methods=methods)]

    async def hdr_dispatch(request, call_next):
        response = await call_next(request)
        response.headers["X-Mw"] = "1"
        return response

    async def plain_dispatch(request, call_next):
        await tick()
        response = await call_next(request)
        await tick()
        return response

    async def short_dispatch(request, call_next):
        if case["seed"] % 2:
            request.scope["vp"]["short"] = True
            return PlainTextResponse("short" * 200, 403)
        return await call_next(request)

    async def swap_dispatch(request, call_next):
        response = await call_next(request)
        n = 0
        if case["seed"] % 3 == 0:
            request.scope["vp"]["short"] = True
            return PlainTextResponse("swapped", 200)
        async for c in response.body_iterator:
            n += len(c)
        return PlainTextResponse(f"read {n}")

    async def body_dispatch(request, call_next):
        await request.body()
        return await call_next(request)

    async def key_handler(request, exc):
        await tick()
        return JSONResponse({"handled": True}, status_code=409)

    def key_handler_sync(request, exc):
        return PlainTextResponse("handled", status_code=409)

    allowed = {"cors": lambda: Middleware(CORSMiddleware, allow_origins=["https://a.org"] if size % 2 else ["*"], allow_credentials=size % 3 == 0, allow_methods=["*"]),
               "gzip": lambda: Middleware(GZipMiddleware, minimum_size=[500, 1, 10000][size % 3]),
               "session": lambda: Middleware(SessionMiddleware, secret_key="s"),
               "host": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["testserver", "*.org"] if case["seed"] % 5 else ["other"]),
               "https": lambda: Middleware(HTTPSRedirectMiddleware),
               "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=plain_dispatch),
               "base-hdr": lambda: Middleware(BaseHTTPMiddleware, dispatch=hdr_dispatch),
               "base-short": lambda: Middleware(BaseHTTPMiddleware, dispatch=short_dispatch),
               "base-swap": lambda: Middleware(BaseHTTPMiddleware, dispatch=swap_dispatch),
               "base-body": lambda: Middleware(BaseHTTPMiddleware, dispatch=body_dispatch),
               "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
               "exc": lambda: Middleware(ExceptionMiddleware, handlers={ValueError: key_handler}),
               "err": lambda: Middleware(ServerErrorMiddleware, debug=case["debug"]),
               "pure": lambda: Middleware(Pure)}
    mws = [allowed[m]() for m in case["mws"]]
    place = case.get("place", "app")
    if place == "mount":
        routes = [Mount("/m", routes=routes, middleware=mws), Route("/", endpoint)]
        mws = []
    elif place == "route" and isinstance(routes[0], Route):
        routes = [Route("/{p:path}", Endpoint if k == "class" else endpoint, methods=None if k == "class" else methods, middleware=mws)]
        mws = []
    elif place == "host":
        routes = [Host("testserver", Router(routes=routes, middleware=mws)), Mount("/", routes=routes)]
        mws = []
    handlers = {KeyError: key_handler if case["seed"] % 2 else key_handler_sync}
    if case["wrap"] in ("app", "app-inner"):
        if case["seed"] % 7 == 0:
            handlers[500] = lambda request, exc: PlainTextResponse("custom 500", 500)
        if case["seed"] % 11 == 0:
            handlers[404] = key_handler
        if case["fault"] and case["seed"] % 3 == 1:
            # the application handles what a failing server raises: nothing of the response may be said twice
            handlers[OSError] = key_handler
            handlers[ClientDisconnect] = key_handler_sync
        app = Starlette(routes=routes, middleware=mws, exception_handlers=handlers, debug=case["debug"])
        if case["wrap"] == "app-inner":
            app = Starlette(routes=[Mount("/", app)])
        return app, True
    app = Router(routes=routes)
    for m in reversed(mws):
        cls, args, kwargs = m
        app = cls(app, *args, **kwargs)
    if case["wrap"] == "router":
        return ServerErrorMiddleware(app, debug=case["debug"]), True
    return app, False


def flatten(exc):
    if isinstance(exc, BaseExceptionGroup):
        return [x for e in exc.exceptions for x in flatten(e)]
    return [exc]


def accounted(exc, case, kind, covered, faulty):
    """True for an exception which the workload itself caused"""
    if isinstance(exc, Boom):
        return kind in ("boom", "boom-mid", "bg-boom")
    if isinstance(exc, KeyError):
        return kind == "handled" and (not covered or case["wrap"] == "router")
    if isinstance(exc, (HTTPException, MultiPartException)):
        return case["wrap"] in ("router", "bare")
    return faulty and (isinstance(exc, (OSError, ClientDisconnect)) or isinstance(exc, RuntimeError) and str(exc) in ("No response returned.", "Caught handled exception, but response already started."))


def run(case, mon):
    app, covered = build(case, {})
    rng = random.Random(case["seed"])
    reqs = []
    path = {"static": f"/f{case['size']}.txt" if case["seed"] % 4 else rng.choice(["/sub", "/sub/", "/nope", "/", "/../x"]), "mount404": rng.choice(["/", "/sub", "/sub/x", "/y", "/sub/x/"])}.get(case["kind"], "/")
    if case.get("place") == "mount":
        path = "/m" + path
    for i, r in enumerate(case["reqs"]):
        hs = [("host", "testserver")] + [tuple(h) for h in r["headers"]]
        n = case["bodylen"]
        per = max(1, n // case["msgs"])
        msgs = [(b"q" * min(per, n - j), j + per < n) for j in range(0, n, per)] or [(b"", False)]
        own = {}
        ext = {"http.response.push": {}, "http.response.debug": {}} if case["ext"] else None
        reqs.append((r, http_scope(r["method"], path, hs, extensions=ext, vp=own), msgs, own))
    kw = {}
    if case["fault"] == "disc-sends":
        kw = dict(disconnect_after_sends=case["fault_at"])
    elif case["fault"] == "disc-recv":
        kw = dict(disconnect_on_recv=case["fault_at"])
    elif case["fault"] == "send-error":
        kw = dict(send_error_at=case["fault_at"])
    traces = []

    async def main():
        async def one(i, r, scope, msgs, own):
            t = Trace()
            traces.append((r, t, own))
            await call_app(app, scope, ServerSide(t, msgs, Jit(case["seed"] + i, case["jit"]), **kw), t)

        async with anyio.create_task_group() as tg:
            for i, (r, s, m, own) in enumerate(reqs):
                tg.start_soon(one, i, r, s, m, own)
        if case["backend"] == "asyncio":
            import asyncio

            for _ in range(20):
                await asyncio.sleep(0)
                left = sum(1 for x in asyncio.all_tasks() if x is not asyncio.current_task() and not x.done())
                if not left:
                    break
            traces[0][1].leaked_tasks = left

    _, errors = run_async(case["backend"], case["seed"], main)
    traces[0][1].loop_errors = errors
    if len(traces) > 1:
        mon.n("concurrent")
    if len(case["mws"]) >= 4:
        mon.n("deep stacks")
    kind = case["kind"]
    for r, t, state in traces:
        no_leaks(t, mon)
        faulty = case["fault"] is not None
        http_protocol(t, mon, method=r["method"], expect_complete=not faulty, check_length=not faulty)
        mon.n("responses judged")
        if case["fault"] and case["fault"].startswith("disc"):
            mon.n("disconnects")
        elif case["fault"]:
            mon.n("send errors")
        if r["method"] == "HEAD":
            mon.n("HEAD requests")
        for m in t.sent:
            if m["type"] == "http.response.push":
                mon.n("push promises")
            if m["type"] == "http.response.debug":
                mon.n("debug messages")
        if t.start and t.header("content-encoding") == "gzip":
            mon.n("gzip bodies")
        if kind == "file" and t.status in (200, 206):
            mon.n("file responses")
        if state.get("short"):
            mon.n("answered by middleware")
        exc = t.exc
        if exc is not None:
            leaves = flatten(exc)
            exc = leaves[0]
            okay = all(accounted(e, case, kind, covered, faulty) for e in leaves) and (len(leaves) == 1 or faulty)
            if not okay:
                import traceback

                mon.fail("foreign-exception", f"the application raised {t.exc!r} " + "".join(traceback.format_exception(t.exc))[-1500:])
        if kind == "boom" and state.get("boom") and not faulty:
            mon.n("failures before response")
            if covered and t.exc is not None or "base-swap" not in case["mws"] and "base-short" not in case["mws"] and covered:
                mon.ok(t.complete and t.status == 500, "unanswered", f"an endpoint raised before responding: status {t.status}, complete {t.complete}")
        if kind == "boom-mid" and state.get("boom") == "mid":
            mon.n("failures midway")
            if "base-swap" not in case["mws"] and "base-short" not in case["mws"]:
                if isinstance(exc, Boom) and t.status == 200:
                    mon.ok(not t.complete, "truncated-complete", "a response whose stream failed midway was marked as complete")
                if not faulty and r["method"] != "HEAD" and t.status == 200 and not any(p in ("https", "host") for p in case["mws"]):
                    mon.ok(t.exc is not None or not t.complete, "swallowed", "a failure midway ended as a complete response without an exception")
        if covered and t.exc is None and not faulty:
            mon.ok(t.complete, "incomplete", "no complete response")
        if covered and exc is not None and not faulty and t.start is None:
            mon.fail("no-response", f"{exc!r} and no response at all")
        mon.nontrivial(kind, case["mws"], r["method"], t.status, [m["type"][14:] for m in t.sent][:8], case["fault"], type(exc).__name__)
