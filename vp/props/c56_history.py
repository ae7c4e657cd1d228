from __future__ import annotations

import base64
import copy
import gzip
import json
import os
import pickle
import random
import re

import anyio
import jinja2

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser, requires
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, WebSocketRoute
from starlette.schemas import SchemaGenerator
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.websockets import WebSocketDisconnect

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, run_async, ws_scope

ID = "C56"
PROP = dict(
    title="Repeating a request repeats its answer; what the caller handed over is only read",
    statement=(
        "While the application's own data does not change, the answer to a request is a function of that request: an application that has served any history before - requests that differ from this one in a single respect (method, host, scheme, path, query, one header, body), failed, abandoned, cancelled or malformed ones, through any middleware and component - "
        "answers it with the same status, headers, body and effects as an application that has just been built, in the same process or a new one. "
        "And serving requests never modifies what the application handed over to be used again: the lists, dicts, headers, contexts, schemas and response objects given to routes, middleware, responses and templates, and the header list and other values of the server's scope."
    ),
    over=["histories", "inputs", "programs", "configurations"],
    quant="every application, every history of requests before, and every request",
    why="tests build an application and send it one or two requests; what is remembered from an earlier request, or an object changed while it is answered, needs a history of almost equal requests",
    files=["starlette/applications.py", "starlette/routing.py", "starlette/middleware/", "starlette/responses.py", "starlette/staticfiles.py", "starlette/templating.py", "starlette/datastructures.py", "starlette/requests.py", "starlette/schemas.py"],
    mechanism=[("middleware stack kept", "starlette/applications.py:Starlette.__call__"), ("matching", "starlette/routing.py:Router.app"), ("prepared headers", "starlette/middleware/cors.py:CORSMiddleware"), ("responses used again", "starlette/responses.py:Response"), ("context", "starlette/templating.py:Jinja2Templates.TemplateResponse"), ("configuration checked once", "starlette/staticfiles.py:StaticFiles")],
)
TECH = "runtime monitoring: a differential oracle (every answer within a long history of near-identical requests against the answer of a just-built application, part of them computed in a forked process) and snapshots of every object handed over, compared after every request"
RULE = "each case is an application, a pool of requests that differ in single respects, and a history over that pool with endings of every kind; non-trivial when answers within the history were compared with fresh ones"
LEVEL_NOTE = "held on the generated applications, pools and histories"
BUDGET = {"quick": (20000, 14), "thorough": (300000, 240)}
REQUIRED = ("answers compared", "answers from a forked process", "near-identical pairs", "abandoned requests", "cancelled requests", "failing sends", "snapshots compared", "echoes checked", "websockets", "static files", "redirects", "sessions", "preflights", "gzip responses", "templates", "WSGI", "error pages", "background tasks")

TARGETS = ["/echo/{t}", "/num/7", "/num/8", "/float/1.5", "/float/2.5", "/uuid/12345678-1234-5678-1234-567812345678", "/path/a/{t}", "/path/a/b", "/same/x", "/same/y", "/slash", "/slash/", "/noslash", "/noslash/", "/file", "/reused", "/reused-stream", "/reused-file", "/reused-redirect", "/reused-error", "/ctx", "/template/{t}", "/static/a.txt", "/static/b.txt", "/static/sub", "/static/sub/", "/static/missing", "/plain/a.txt", "/plain/b.txt", "/session", "/private", "/private2", "/bg/{t}", "/boom/{t}", "/teapot/{t}", "/class", "/form", "/body", "/stream/{t}", "/url/{t}", "/wsgi/{t}", "/wsgi/x", "/sub/{t}/echo/x", "/sub/x/echo/{t}", "/schema", "/hosted", "/missing", "/", "/options"]
MWS = ["gzip", "gzip", "cors", "cors-any", "session", "base", "auth", "host", "https", "base-short"]
ENDINGS = ["done", "done", "done", "done", "gone", "cancel", "sendfail", "never-read"]


def fixed(tier):
    out = []
    i = 0
    for tg in TARGETS:
        for mws in ([], ["gzip", "cors", "session", "auth"], ["session", "base", "gzip", "host", "cors-any"]):
            i += 1
            out.append(dict(base=[tg], mws=mws, n=24, seed=i, backend="trio" if i % 4 == 0 else "asyncio", debug=i % 7 == 0, fork=i % 9 == 1, root=["", "/r"][i % 2], mutate=9))
    for tg in ("/static/a.txt", "/echo/{t}", "/same/x", "/session", "/reused-file", "/url/{t}", "/form"):
        i += 1
        out.append(dict(base=[tg], mws=["cors", "gzip"], n=10, seed=i, backend="asyncio", debug=False, fork=True, root="", mutate=5))
    return out


def gen(rng, tier):
    k = rng.choice([1, 1, 2, 3])
    fork = rng.random() < 0.12
    return dict(base=[rng.choice(TARGETS) for _ in range(k)], mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 2, 3, 4]))], n=rng.choice([8, 12, 25, 50]), seed=rng.randrange(10**6), backend="asyncio" if fork else gens.backend(rng), debug=rng.random() < 0.12, fork=fork, root=rng.choice(["", "", "/r"]), mutate=rng.choice([3, 5, 8]))


DIR = {}


def worker_setup(mon):
    for d in ("h1/sub", "h2"):
        os.makedirs(d, exist_ok=True)
    for f, text in (("h1/a.txt", "first " * 200), ("h1/b.txt", "second " * 30), ("h1/sub/index.html", "<p>sub</p>"), ("h1/404.html", "<p>none</p>"), ("h2/a.txt", "other " * 200), ("h2/b.txt", "")):
        with open(f, "w") as fh:
            fh.write(text)
    DIR["h1"], DIR["h2"] = os.path.abspath("h1"), os.path.abspath("h2")


class Boom(Exception):
    pass


class Mine(HTTPException):
    pass


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        v = conn.headers.get("authorization")
        if v:
            return AuthCredentials(v.split(",")), SimpleUser(v)


def build(case, log):
    """The application, and the objects handed over that serving must leave alone."""
    keep = {}

    def given(name, obj):
        keep[name] = obj
        return obj

    async def echo(request):
        body = await request.body()
        answer = JSONResponse(
            dict(method=request.method, path=request.url.path, params={k: str(v) for k, v in request.path_params.items()}, q=request.query_params.multi_items(), h=sorted(request.headers.items()), c=sorted(request.cookies.items()), url=str(request.url), base=str(request.base_url), body=body.decode("latin-1"), client=list(request.client or ()), own=hasattr(request.state, "own"), auth=list(request.auth.scopes)),
            headers=given("echo headers", HEADERS),
        )
        # what a request gives its endpoint is the endpoint's own, to change as it likes
        request.cookies["own"] = "1"
        request.path_params["own"] = "1"
        request.scope["path_params"]["own2"] = "1"
        request.auth.scopes += ["authenticated", "admin"]
        request.state.own = 1
        request.scope["headers"].append((b"x-own", b"1"))
        if "session" in request.scope:
            request.session["own"] = {"a": [1]}
        return answer

    HEADERS = {"x-echo": "1", "vary": "X"}

    async def file(request):
        return FileResponse(os.path.join(DIR["h1"], "a.txt"), headers=given("file headers", FHEADERS), filename="ä.txt")

    FHEADERS = {"x-file": "1"}
    shared = given("response", PlainTextResponse("shared " * 150, headers={"x-shared": "1"}))

    class Again:
        # a streaming response can only be used again when what it iterates can be iterated again
        def __aiter__(self):
            async def chunks():
                for _ in range(20):
                    yield "again" * 10

            return chunks()

    shared_stream = StreamingResponse(Again(), headers={"x-shared": "2"})
    shared_file = FileResponse(os.path.join(DIR["h1"], "b.txt"), headers={"x-shared": "3"})
    shared_redirect = RedirectResponse("/echo/ä?x=1", headers={"x-shared": "4"})
    shared_error = HTTPException(409, detail="shared", headers=given("error headers", {"x-shared": "5"}))
    CONTEXT = given("context", {"title": "t", "items": [1, 2]})
    THEADERS = given("template headers", {"x-t": "1"})
    env = jinja2.Environment(loader=jinja2.DictLoader({"t": "{{ title }} {{ request.url.path }} {{ request.query_params }} {{ items }} {{ extra }} {{ url_for('echo', t='z') }}"}))
    templates = Jinja2Templates(env=env, context_processors=given("processors", [lambda request: {"extra": request.headers.get("x-a", "-")}]))

    async def ctx(request):
        return templates.TemplateResponse(request, "t", CONTEXT, headers=THEADERS)

    def template(request):
        return templates.TemplateResponse(request, "t", {"title": request.path_params["t"]})

    async def session(request):
        if "session" not in request.scope:
            return PlainTextResponse("none")
        before = dict(request.session)
        request.session["n"] = request.session.get("n", 0) + 1
        if "x" in request.query_params:
            request.session.clear()
        return JSONResponse(before)

    @requires(given("scopes", ["authenticated", "admin"]))
    async def private(request):
        return PlainTextResponse(f"{request.user.display_name} {request.auth.scopes}")

    @requires("admin", redirect="echo0")
    def private2(request):
        return PlainTextResponse("in")

    BGARGS = given("task args", ["a", {"k": [1]}])

    async def bg(request):
        async def task(t, *args):
            log.append(t)

        return PlainTextResponse("bg", background=BackgroundTask(task, request.path_params["t"] + request.url.query, BGARGS))

    async def boom(request):
        request.state.x = 1
        raise Boom(request.path_params["t"] + request.url.query)

    async def teapot(request):
        status = {"x=1": 404, "x=2": 405}.get(request.url.query, 418)
        raise [HTTPException, Mine][status != 418 or len(request.url.query) % 2](status, detail=request.path_params["t"] + request.url.query)

    class Klass(HTTPEndpoint):
        async def get(self, request):
            return PlainTextResponse("get " + request.url.query)

        def post(self, request):
            return PlainTextResponse("post " + request.url.query)

    async def form(request):
        async with request.form() as f:
            out = []
            for k, v in f.multi_items():
                out.append([k, v if isinstance(v, str) else [v.filename, (await v.read()).decode("latin-1")]])
            return JSONResponse(out)

    async def body(request):
        n = [len(c) async for c in request.stream()]
        return PlainTextResponse(str(sum(n)))

    async def stream(request):
        async def gen():
            for i in range(4):
                yield request.path_params["t"] * 40 + request.url.query
                await anyio.sleep(0)

        return StreamingResponse(gen(), media_type="text/plain")

    async def url(request):
        return PlainTextResponse(f"{request.url_for('echo', t='q')} {request.base_url} {request.url.replace(query='')} {request.url_for('static', path='/a.txt')} {request.app.url_path_for('sub:e', m='1', t='2')}")

    def wsgi(environ, start_response):
        data = environ["wsgi.input"].read()
        start_response("200 OK", WSGIHEADERS)
        keys = ("REQUEST_METHOD", "SCRIPT_NAME", "PATH_INFO", "QUERY_STRING", "SERVER_NAME", "SERVER_PORT", "CONTENT_TYPE", "CONTENT_LENGTH", "HTTP_X_A", "HTTP_COOKIE", "REMOTE_ADDR", "wsgi.url_scheme")
        return [json.dumps({k: environ.get(k) for k in keys}).encode(), data]

    WSGIHEADERS = given("wsgi headers", [("Content-Type", "text/plain"), ("X-W", "1")])

    async def ws(websocket):
        await websocket.accept(headers=given("accept headers", ACCEPT))
        try:
            t = await websocket.receive_text()
            await websocket.send_json(dict(t=t, p=websocket.path_params, q=str(websocket.query_params), u=str(websocket.url), h=sorted(websocket.headers.items())))
            await websocket.close(4001, t)
        except WebSocketDisconnect:
            pass

    ACCEPT = [(b"x-acc", b"1")]
    generator = SchemaGenerator(given("schema", {"openapi": "3.0.0", "info": {"title": "T"}, "paths": {"/own": {"get": {"x": 1}}}}))

    def schema(request):
        """
        responses:
          200:
            description: the schema
        """
        return generator.OpenAPIResponse(request)

    async def handler(request, exc):
        return JSONResponse(dict(detail=exc.detail, url=str(request.url)), status_code=exc.status_code, headers=exc.headers)

    async def h500(request, exc):
        return PlainTextResponse(f"{exc} {request.url}", 500)

    async def base(request, call_next):
        request.state.mw = 1
        r = await call_next(request)
        r.headers["x-mw"] = request.url.path
        r.headers.add_vary_header("X-Mw")
        return r

    async def base_short(request, call_next):
        if request.headers.get("x-a") == "short":
            return shared
        r = await call_next(request)
        r.set_cookie("s", "1")
        return r

    def method_a(request):
        return PlainTextResponse("a " + request.method + str(request.path_params))

    def method_b(request):
        return PlainTextResponse("b " + request.method + str(request.path_params))

    GM = given("methods", ["GET"])
    routes = given("routes", [
        Route("/", method_a, name="root"), Route("/echo/{t}", echo, methods=given("methods2", ["GET", "POST", "PUT"]), name="echo"), Route("/echo0", echo, name="echo0"), Route("/num/{n:int}", method_a, methods=GM), Route("/num/{n}", method_b, methods=["POST"]), Route("/float/{n:float}", method_a), Route("/uuid/{n:uuid}", method_a),
        Route("/path/{p:path}", method_a, methods=GM), Route("/path/a/b", method_b, methods=["POST"]), Route("/same/{x}", method_a, methods=GM), Route("/same/{y}", method_b, methods=["POST", "DELETE"]), Route("/slash/", method_a), Route("/noslash", method_b), Route("/file", file),
        Route("/reused", shared), Route("/reused-stream", lambda r: shared_stream), Route("/reused-file", shared_file), Route("/reused-redirect", lambda r: shared_redirect), Route("/ctx", ctx), Route("/template/{t}", template), Route("/session", session), Route("/private", private), Route("/private2", private2), Route("/bg/{t}", bg), Route("/boom/{t}", boom), Route("/teapot/{t}", teapot),
        Route("/class", Klass), Route("/form", form, methods=["POST"]), Route("/body", body, methods=["POST", "PUT"]), Route("/stream/{t}", stream), Route("/url/{t}", url), Route("/schema", schema), Route("/options", method_a, methods=["OPTIONS", "GET"]), WebSocketRoute("/ws/{t}", ws), WebSocketRoute("/echo/{t}", ws),
        Mount("/static", StaticFiles(directory=DIR["h1"], html=True), name="static"), Mount("/plain", StaticFiles(directory=DIR["h2"])), Mount("/wsgi", WSGIMiddleware(wsgi)),
        Mount("/sub/{m}", name="sub", routes=[Route("/echo/{t}", echo, name="e", methods=["GET", "POST"])], middleware=given("mount middleware", [Middleware(GZipMiddleware, minimum_size=10)])),
        Host("{h}.hosted.org", Starlette(routes=[Route("/hosted", echo), Route("/same/{z}", method_b), Route("/echo/{t}", echo), Route("/slash", method_b), Route("/num/{n}", method_b)]), name="hosted"), Host("www.hosted.net", Starlette(routes=[Route("/hosted", echo)])),
    ])

    def raise_shared(request):
        raise shared_error

    routes.append(Route("/reused-error", raise_shared))
    if case["seed"] % 2:
        # ahead of the routes they share paths with
        routes[:] = routes[-3:-1] + routes[:-3] + routes[-1:]
    make = {
        "gzip": lambda: Middleware(GZipMiddleware, minimum_size=300),
        "cors": lambda: Middleware(CORSMiddleware, allow_origins=given("origins", ["https://a.org", "https://b.org"]), allow_origin_regex="https://.*\\.c\\.org", allow_credentials=True, allow_methods=given("cors methods", ["GET", "PUT"]), allow_headers=given("cors headers", ["X-A"]), expose_headers=given("cors expose", ["X-Echo"])),
        "cors-any": lambda: Middleware(CORSMiddleware, allow_origins=["*"], allow_methods=["*"], allow_headers=["*"], allow_credentials=case["seed"] % 2 == 0),
        "session": lambda: Middleware(SessionMiddleware, secret_key="k", same_site="strict"),
        "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=base),
        "base-short": lambda: Middleware(BaseHTTPMiddleware, dispatch=base_short),
        "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
        "host": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=given("hosts", ["*.org", "a.net", "testserver", "www.evil.com"])),
        "https": lambda: Middleware(HTTPSRedirectMiddleware),
    }
    async def h404(request, exc):
        return PlainTextResponse(f"none {request.url.path} {exc.detail}", 404)

    handlers = given("handlers", [{HTTPException: handler, 404: h404}, {404: h404, 405: h404}, {}][case["seed"] % 3])
    if not case["debug"]:
        handlers[Exception] = h500
    mws = given("middleware", [make[m]() for m in case["mws"]])
    if "auth" not in case["mws"]:
        mws.append(make["auth"]())
    app = Starlette(debug=case["debug"], routes=routes, middleware=mws, exception_handlers=handlers)
    return app, keep


def frozen(o):
    if isinstance(o, dict):
        return ("dict", [(frozen(k), frozen(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [frozen(x) for x in o])
    if isinstance(o, Response):
        return ("response", o.status_code, list(o.raw_headers), getattr(o, "body", None), o.media_type, id(o.background))
    if isinstance(o, Middleware):
        return ("middleware", o.cls.__name__, frozen(list(o.args)), frozen(o.kwargs))
    if isinstance(o, (str, bytes, int, float, type(None))):
        return o
    return ("object", id(o))


# --------------------------------------------------------------------------- requests
def pool_of(case):
    rng = random.Random(case["seed"])
    pool = []
    for tg in case["base"]:
        t = f"k{rng.randrange(10**9)}"
        base = dict(ws=False, method=rng.choice(["GET", "GET", "GET", "POST"]), path=tg.replace("{t}", t), host="a.org", scheme="http", root=case["root"], q="", h={}, body="", cuts=1, client="c")
        if tg in ("/form", "/body") and rng.random() < 0.8:
            base.update(method="POST", body="a=1&b=2", h={"content-type": "application/x-www-form-urlencoded"})
        pool.append(base)
        for _ in range(case["mutate"]):
            src = rng.choice([base, base, pool[-1]])
            r = copy.deepcopy(src)
            for _ in range(rng.choice([1, 1, 1, 2])):
                mutate(r, rng, t)
            pool.append(r)
    return pool


def mutate(r, rng, t):
    k = rng.choice(["preflight", "preflight", "method", "method", "host", "scheme", "q", "q", "header", "header", "header", "header", "path", "body", "root", "ws", "cuts"])
    if k == "method":
        r["method"] = rng.choice(["GET", "POST", "HEAD", "PUT", "OPTIONS", "DELETE", "get"])
    elif k == "preflight":
        r["method"] = "OPTIONS"
        r["h"].update({"origin": rng.choice(["https://a.org", "https://b.org", "https://z.c.org", "https://evil.org"]), "access-control-request-method": rng.choice(["GET", "GET", "PUT", "DELETE"])})
        r["h"].pop("access-control-request-headers", None)
        if rng.random() < 0.5:
            r["h"]["access-control-request-headers"] = rng.choice(["X-A", "x-b", "X-A, X-B"])
    elif k == "host":
        r["host"] = rng.choice(["b.org", "evil.com", "x.hosted.org", "x.hosted.org", "y.hosted.org", "www.hosted.net", "a.org:81", "a.org:443", None, "bad host/", "A.ORG"])
    elif k == "scheme":
        r["scheme"] = rng.choice(["http", "https"])
    elif k == "q":
        r["q"] = rng.choice(["", "x=1", "x=2", "x=1&x=2", f"y={t}", "%C3%A4"])
    elif k == "path":
        p = r["path"]
        r["path"] = rng.choice([p.rstrip("/") + "/", p.rstrip("/") or "/", p + "x", p.upper(), p.replace("a", "b"), "/" + p.lstrip("/").replace("/", "//", 1), p + "/.."])
    elif k == "body":
        kind = rng.choice(["", "a=1&b=3", "multi", "json"])
        r["method"] = "POST"
        r["h"]["content-type"] = "application/x-www-form-urlencoded"
        r["body"] = kind
        if kind == "multi":
            v = rng.choice(["1", "2", "v" * 300])
            r["h"]["content-type"] = "multipart/form-data; boundary=" + rng.choice(["b", "b", "c"])
            r["body"] = f'--b\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\n{v}\r\n--b--\r\n'
        elif kind == "json":
            r["body"] = '{"a": 1}'
    elif k == "root":
        r["root"] = rng.choice(["", "/r", "/s"])
    elif k == "ws":
        r["ws"] = not r["ws"]
        if rng.random() < 0.6:
            r["path"] = "/ws/" + t
    elif k == "cuts":
        r["cuts"] = rng.choice([1, 2, 5])
    else:
        name, vals = rng.choice([
            ("accept-encoding", ["gzip", "identity", "gzip;q=0"]), ("origin", ["https://a.org", "https://b.org", "https://z.c.org", "https://evil.org", "null"]), ("access-control-request-method", ["GET", "PUT", "DELETE"]), ("access-control-request-headers", ["X-A", "x-b", "X-A, X-B"]), ("cookie", ["s=1", "s=2; t=3", "session=broken", "session=" + signed({"n": 3}), "session=" + signed({"n": 4, "u": t})]),
            ("authorization", ["authenticated", "authenticated,admin", "admin"]), ("range", ["bytes=0-4", "bytes=5-9", "bytes=-3", "bytes=0-2,6-8", "bytes=99999-", "lines=1"]), ("if-none-match", ["*", '"x"']), ("if-modified-since", ["Thu, 01 Jan 2099 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:00 GMT"]), ("if-range", ['"x"', "Thu, 01 Jan 1970 00:00:00 GMT"]), ("x-a", ["1", "2", "short", "ä"]), ("x-forwarded-host", ["evil.com"]), ("accept", ["text/html", "text/plain"]), ("content-type", ["text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b"]), ("upgrade", ["websocket"]),
        ])
        if name in r["h"] and rng.random() < 0.4:
            del r["h"][name]
        else:
            r["h"][name] = rng.choice(vals)


def signed(data):
    import itsdangerous

    return itsdangerous.TimestampSigner("k").sign(base64.b64encode(json.dumps(data).encode())).decode()


def scope_of(r):
    hs = ([] if r["host"] is None else [("host", r["host"])]) + sorted(r["h"].items())
    if r["body"]:
        hs.append(("content-length", str(len(r["body"].encode("latin-1")))))
    if r["ws"]:
        return ws_scope(r["root"] + r["path"], hs, query=r["q"], root_path=r["root"], scheme={"http": "ws", "https": "wss"}[r["scheme"]], client=(r["client"], 1), extensions={"websocket.http.response": {}})
    return http_scope(r["method"], r["root"] + r["path"], hs, query=r["q"], root_path=r["root"], scheme=r["scheme"], client=(r["client"], 1))


async def serve(app, r, ending="done", seed=0):
    t = Trace()
    scope = scope_of(r)
    headers = scope["headers"]
    seen = copy.deepcopy({k: v for k, v in scope.items() if k in ("method", "scheme", "query_string", "headers", "client", "server", "http_version", "subprotocols", "type", "asgi", "extensions", "raw_path")})
    rng = random.Random(seed)
    with anyio.CancelScope() as cs:
        if r["ws"]:
            inbox = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": "hello"}, {"type": "websocket.disconnect", "code": 1000}]
            if ending == "gone":
                inbox = inbox[:1] + inbox[2:]

            async def receive():
                await anyio.sleep(0)
                if inbox:
                    return inbox.pop(0)
                await anyio.sleep_forever()

            async def send(m):
                await anyio.sleep(0)
                t.events.append(("send", dict(m)))
                if ending == "sendfail" and m["type"] == "websocket.send":
                    raise OSError("gone")
                if ending == "cancel":
                    cs.cancel()

            try:
                await app(scope, receive, send)
            except Exception as exc:
                t.exc = exc
        else:
            body = r["body"].encode("latin-1")
            k = r["cuts"]
            step = max(1, -(-len(body) // k))
            parts = [body[i : i + step] for i in range(0, len(body), step)] or [b""]
            msgs = [(p, i < len(parts) - 1) for i, p in enumerate(parts)]
            kw = {}
            if ending == "gone":
                msgs, kw = msgs[: rng.randrange(len(msgs) + 1)], dict(disconnect_after_sends=rng.choice([0, 1, 2]))
                msgs = [(p, True) for p, _ in msgs]
                kw["disconnect_on_recv"] = len(msgs)
            elif ending == "sendfail":
                kw = dict(send_error_at=rng.choice([0, 1, 2]))
            elif ending == "never-read":
                msgs = [(b"x" * 100, True)] * 3 + [(b"", False)]
            side = ServerSide(t, msgs, Jit(seed, 1), **kw)
            if ending == "cancel":
                at = rng.randrange(5)
                real = side.send

                async def send(m):
                    nonlocal at
                    if at == 0:
                        cs.cancel()
                    at -= 1
                    await real(m)

                side.send = send
                if rng.random() < 0.3:
                    cs.cancel()
            await call_app(app, scope, side, t)
    # (an application may append to the headers it sees: what the server handed over is the list it keeps)
    now = dict({k: scope[k] for k in seen if k in scope}, headers=headers)
    t.scope_ok = now == seen, seen, now
    return t


def outcome(r, t, debug):
    if t.start is None:
        return [sorted((k, repr(v)) for k, v in m.items()) for m in t.sent], type(t.exc).__name__
    hs = []
    for k, v in t.headers:
        if k == b"set-cookie" and v.startswith(b"session="):
            val, _, attrs = v[8:].partition(b";")
            try:
                v = b"session " + base64.b64decode(val.split(b".")[0]) + attrs
            except ValueError:
                pass
        v = re.sub(rb"boundary=[0-9a-f]{26}", b"boundary=BOUNDARY", v)
        hs.append((k, v))
    body = t.body
    if (b"content-encoding", b"gzip") in hs:
        body = gzip.decompress(body) if body else body
        hs = [(k, v) for k, v in hs if k != b"content-length"]
    if t.status == 206:
        body = re.sub(rb"--[0-9a-f]{26}", b"--BOUNDARY", body)
    if debug and t.status == 500:
        # the debug page shows addresses of objects
        body, hs = b"", [h for h in hs if h[0] != b"content-length"]
    return t.status, hs, body, type(t.exc).__name__ if t.exc else None, t.complete


def fresh(case, r):
    log = []
    app, _ = build(case, log)
    t, errors = run_async(case["backend"], 1, lambda: serve(app, r))
    return outcome(r, t, case["debug"]), log, t


def forked(case, r):
    """The same in a process that has served nothing else."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = pickle.dumps(fresh(case, r)[:2])
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def echo_check(case, r, t, mon):
    """What an echo shows is this request."""
    if t.start is None or t.status != 200 or (b"x-echo", b"1") not in t.headers or r["method"] == "HEAD" or r["ws"]:
        return
    body = gzip.decompress(t.body) if t.header("content-encoding") == "gzip" else t.body
    got = json.loads(body)
    hs = [] if r["host"] is None else [["host", r["host"]]]
    hs += [[k, v] for k, v in r["h"].items()]
    if r["body"]:
        hs.append(["content-length", str(len(r["body"].encode("latin-1")))])
    want = dict(method=r["method"], path=r["root"] + r["path"], h=sorted(hs), body=r["body"], client=[r["client"], 1])
    have = {k: got[k] for k in want}
    mon.n("echoes checked")
    mon.ok(have == want, "echo", f"the request {want} was shown as {have}")
    if r["host"] and ("/" in r["host"] or " " in r["host"]):
        return
    url = f"{r['scheme']}://{r['host'] or 'testserver'}{r['root']}{r['path']}" + (f"?{r['q']}" if r["q"] else "")
    if r["host"] is None and r["scheme"] == "https":
        url = url.replace("testserver", "testserver:80")
    mon.ok(got["url"] == url, "echo-url", f"the URL of the request is {url}, shown as {got['url']}")


def run(case, mon):
    pool = pool_of(case)
    want = []
    for i, r in enumerate(pool):
        if case["fork"] and case["backend"] == "asyncio":
            out = forked(case, r)
            mon.n("answers from a forked process")
            want.append(out)
        else:
            out = fresh(case, r)
            want.append(out[:2])
    mon.n("near-identical pairs", len({repr(w) for w in want}))
    rng = random.Random(case["seed"] + 7)
    steps = [(rng.randrange(len(pool)), rng.choice(ENDINGS)) for _ in range(case["n"])]
    order = list(range(len(pool)))
    rng.shuffle(order)
    steps += [(i, "done") for i in order] + [(i, "done") for i in order[::-1]]
    log = []
    app, keep = build(case, log)
    history = []

    async def main():
        for si, (i, ending) in enumerate(steps):
            r = pool[i]
            del log[:]
            before = {k: frozen(v) for k, v in keep.items()}
            t = await serve(app, r, ending, si)
            mon.n({"done": "answers compared", "gone": "abandoned requests", "cancel": "cancelled requests", "sendfail": "failing sends", "never-read": "longer bodies"}[ending])
            mon.n("snapshots compared", len(before))
            for k, v in before.items():
                now = frozen(keep[k])
                mon.ok(now == v, "modified", f"serving {r} ({ending}) changed the {k} the application handed over from {v!r:.400} to {now!r:.400}")
            ok, a, b = t.scope_ok
            mon.ok(ok, "scope-modified", f"serving {r} ({ending}) changed the values of the server's scope from {a} to {b}")
            if ending == "done":
                got = outcome(r, t, case["debug"])
                exp, explog = want[i]
                mon.ok(got == tuple(exp) and log == explog, "differs-from-fresh", f"after {len(history)} requests (the last {history[-3:]!r:.600}) the request {r} is answered {got!r:.900} {log}, by a new application {exp!r:.900} {explog}")
                echo_check(case, r, t, mon)
                kinds(r, t, got, log, mon)
            history.append((i, ending, r["method"], r["path"]))

    _, errors = run_async(case["backend"], case["seed"], main)
    mon.ok(not errors, "loop-error", f"{errors}")
    mon.nontrivial(case["base"], case["mws"], case["seed"], case["backend"])


def kinds(r, t, got, log, mon):
    p = r["path"]
    if r["ws"]:
        mon.n("websockets")
        return
    if t.start is None:
        return
    if p.startswith(("/static", "/plain")):
        mon.n("static files")
    if t.status in (307, 303):
        mon.n("redirects")
    if r["method"] == "OPTIONS" and "access-control-request-method" in r["h"] and t.header("access-control-allow-methods"):
        mon.n("preflights")
    if p == "/session" and t.status == 200:
        mon.n("sessions")
    if t.header("content-encoding") == "gzip":
        mon.n("gzip responses")
    if p.startswith(("/ctx", "/template")) and t.status == 200:
        mon.n("templates")
    if p.startswith("/wsgi") and t.status == 200:
        mon.n("WSGI")
    if t.status >= 400:
        mon.n("error pages")
    if log:
        mon.n("background tasks")
