from __future__ import annotations

import os
import re
import warnings
from pathlib import Path

import anyio
import jinja2

from starlette.applications import Starlette
from starlette.authentication import requires
from starlette.config import Config
from starlette.datastructures import URL, FormData, Headers, ImmutableMultiDict, MultiDict, QueryParams, URLPath
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import OpenAPIResponse
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.websockets import WebSocket

from vp.asgi import http_scope, ws_scope

ID = "C53"
PROP = dict(
    title="Every wrong declaration is refused where it is made, every right one works",
    statement=(
        "Whoever declares something that cannot work is told so by an exception where it is declared, and whatever was there before stays as it was: routed paths that do not start with a slash and hosts that do, unknown convertors, parameters named twice (naming exactly these), mounts of nothing, a lifespan together with startup or shutdown handlers of an application, event and middleware types that do not exist, middleware added once the application has served, "
        "exception handlers for what is no exception or status, requires on a function without request or websocket, templates with neither or both of directory and environment or without a request, trusted-host patterns with a wildcard elsewhere than in front, static directories and packages that do not exist, unknown samesite values, contradictory arguments of URL, Headers and multi-dicts, schemas that are no dictionary. "
        "Every other declaration of these kinds is accepted, without a warning unless it is a deprecated form (which warns and works), and a route that was accepted handles the requests for its path. Using what a connection does not have (session, user, credentials, a router, a receive or send channel, the other protocol's kind of scope) raises at once and never returns something made up."
    ),
    over=["inputs", "configurations"],
    quant="every path, host, pattern, name, type and combination of arguments, through every way of declaring",
    why="the combinations of what may be declared are endless; tests try a wrong one here and there",
    files=["starlette/routing.py", "starlette/applications.py", "starlette/authentication.py", "starlette/templating.py", "starlette/staticfiles.py", "starlette/datastructures.py", "starlette/requests.py", "starlette/responses.py", "starlette/websockets.py", "starlette/endpoints.py", "starlette/middleware/exceptions.py", "starlette/middleware/trustedhost.py", "starlette/schemas.py", "starlette/config.py"],
    mechanism=[("compile_path", "starlette/routing.py:compile_path"), ("assertions of constructors", "starlette/routing.py"), ("request properties", "starlette/requests.py:HTTPConnection"), ("requires", "starlette/authentication.py:requires")],
)
TECH = "runtime monitoring: an oracle that decides for each generated declaration whether it is right watches what the real constructors, decorators and methods raise, warn and register, and then serves a request"
RULE = "each case is one declaration made in one way; non-trivial when it was decided, and for routes also served"
LEVEL_NOTE = "held on the generated declarations"
BUDGET = {"quick": (60000, 12), "thorough": (600000, 120)}
REQUIRED = ("refused", "accepted", "routes served", "paths", "hosts", "application arguments", "late middleware", "deprecated forms", "missing things", "patterns", "other declarations")

PIECES = ["/", "a", "b.c", "{x}", "{y}", "{x:int}", "{z:int}", "{w:float}", "{u:uuid}", "{p:path}", "{q:str}", "{path}", "{n:nope}", "{m:Int}", "{}", "{1}", "{x", "x}", "{é}", "{k:int:int}", "*", "-", "{x:}", "{ x}", "_", "{_}", "{X}", "é", "(", "$", "\\", "%20", ":"]
CONVERTORS = {"str": "v", "int": "7", "float": "1.5", "path": "a/b", "uuid": "11111111-2222-3333-4444-555555555555"}
WAYS = ["Route", "WebSocketRoute", "Mount", "Mount-routes", "app.add_route", "app.add_websocket_route", "app.mount", "app.route", "app.websocket_route", "router.add_route", "router.add_websocket_route", "router.mount", "router.route", "router.websocket_route"]
HOST_WAYS = ["Host", "app.host", "router.host"]
APP_ARGS = ["lifespan", "on_startup", "on_shutdown", "routes", "middleware", "exception_handlers", "debug"]
OTHER = ["mount-nothing", "event-type", "middleware-type", "handler-key", "requires", "templates", "template-request", "static", "samesite", "url", "headers", "multidict", "urlpath", "openapi", "base-dispatch", "ws-encoding", "json-mode", "config-file", "router-lifespan"]
MISSING = ["session", "auth", "user", "url_for", "body", "push", "scope-type", "ws-scope-type", "endpoint-scope", "ws-endpoint-scope", "static-scope", "send-unset"]


def fixed(tier):
    out = []
    for way in WAYS:
        for p in ["/", "", "a", "/a", "a/{x}", "/{x}/{x}", "/{x}/{y}", "/{x}/{x}/{y}/{y:int}", "/{n:nope}", "/{p:path}", "/{path}", "/{x:int}", "/{1}", "/{}", "{x}", "/{x:}", "//", " /a", "/{m:Int}", "/a.b", "/{w:float}/{u:uuid}"]:
            out.append(dict(kind="path", way=way, path=p))
    for way in HOST_WAYS:
        for p in ["h", "/h", "{x}.h", "{x}.{x}", "{n:nope}.h", "*", "{a}.{b}.h", "h.org", ""]:
            out.append(dict(kind="host", way=way, path=p))
    for k in range(64):
        out.append(dict(kind="app", args=[a for i, a in enumerate(APP_ARGS) if k >> i & 1], falsy=k % 3))
    for p in ["*", "*.a.org", "a.org", "*a.org", "a.*", "*.*", "*.", "a*", "**", "", "*.a.*", ".*", "www.*.org"]:
        out.append(dict(kind="pattern", patterns=["h", p]))
    for served in ("", "http", "websocket", "lifespan", "failed"):
        for how in ("add_middleware", "decorator"):
            out.append(dict(kind="late", served=served, how=how))
    for o in OTHER:
        for v in range(24):
            out.append(dict(kind="other", what=o, v=v))
    for m in MISSING:
        for v in range(8):
            out.append(dict(kind="missing", what=m, v=v))
    for w in range(14):
        out.append(dict(kind="deprecated", w=w))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.5:
        return dict(kind="path", way=rng.choice(WAYS), path=("/" if rng.random() < 0.8 else "") + "".join(rng.choice(PIECES) + ("/" if rng.random() < 0.4 else "") for _ in range(rng.randrange(0, 6))))
    if r < 0.62:
        return dict(kind="host", way=rng.choice(HOST_WAYS), path=".".join(rng.choice([p for p in PIECES if "/" not in p] + ["/"] * 2) for _ in range(rng.randrange(1, 5))))
    if r < 0.7:
        return dict(kind="app", args=[a for a in APP_ARGS if rng.random() < 0.4], falsy=rng.randrange(3))
    if r < 0.8:
        return dict(kind="pattern", patterns=["".join(rng.choice(["*", "a", ".", "org", "*.", "www", ""]) for _ in range(rng.randrange(0, 5))) for _ in range(rng.randrange(1, 4))])
    if r < 0.84:
        return dict(kind="late", served=rng.choice(["", "http", "websocket", "lifespan", "failed"]), how=rng.choice(["add_middleware", "decorator"]))
    if r < 0.95:
        return dict(kind="other", what=rng.choice(OTHER), v=rng.randrange(1000))
    if r < 0.99:
        return dict(kind="missing", what=rng.choice(MISSING), v=rng.randrange(1000))
    return dict(kind="deprecated", w=rng.randrange(14))


def worker_setup(mon):
    os.makedirs("de/t", exist_ok=True)
    Path("de/file").write_text("x")
    Path("de/t/t.html").write_text("t")
    Path("de/env").write_text("A=1\n")
    os.makedirs("de/pk/statics", exist_ok=True)
    os.makedirs("de/pk/other", exist_ok=True)
    Path("de/pk/__init__.py").write_text("")
    import importlib
    import sys

    sys.path.insert(0, os.path.abspath("de"))
    importlib.invalidate_caches()


def attempt(f):
    """-> (value, exception, warnings)"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            v, e = f(), None
        except Exception as exc:  # noqa: BLE001
            v, e = None, exc
    return v, e, [w for w in seen if "unclosed" not in str(w.message)]


def decide(mon, what, f, wrong, kinds=(AssertionError, ValueError, TypeError, RuntimeError), warns=False, mention=(), named=None):
    """Makes the declaration; -> (whether it was accepted, its value)"""
    v, e, seen = attempt(f)
    if wrong:
        mon.n("refused")
        if not mon.ok(e is not None, "accepted-wrong", f"{what}: accepted, must be refused"):
            return False, None
        mon.ok(isinstance(e, kinds), "refused-oddly", f"{what}: refused with {e!r}")
        if named:
            text, twice, names = named
            said = set(re.findall(r"\w+", str(e).replace(text, " ")))
            mon.eq(sorted({n for n in names if n in said and n != "path"}), sorted(n for n in twice if n != "path"), "refusal-unclear", f"{what}: {e!r}")
        for m in mention:
            mon.ok(m in str(e), "refusal-unclear", f"{what}: {m!r} is not named by {e!r}")
        return False, None
    mon.n("accepted")
    if not mon.ok(e is None, "refused-right", f"{what}: refused with {e!r}"):
        return False, None
    if warns is not None:
        mon.eq(bool(seen), warns, "warnings", f"{what}: {[str(w.message)[:80] for w in seen]}")
        if warns:
            mon.ok(all(issubclass(w.category, DeprecationWarning) for w in seen), "warnings", f"{what}: {[w.category for w in seen]}")
    return True, v


def run(case, mon):
    {"path": run_path, "host": run_host, "app": run_app, "pattern": run_pattern, "late": run_late, "other": run_other, "missing": run_missing, "deprecated": run_deprecated}[case["kind"]](case, mon)


# ------------------------------------------------------------------------------------ paths
def parse(path):
    """-> (literals and parameters of a path, in order), by hand"""
    out = []
    i = 0
    word = lambda c, first: c.isascii() and (c.isalpha() or c == "_" or not first and c.isdigit())  # noqa: E731
    while i < len(path):
        if path[i] == "{":
            j = i + 1
            while j < len(path) and word(path[j], j == i + 1):
                j += 1
            name = path[i + 1 : j]
            conv = "str"
            if name and j < len(path) and path[j] == ":":
                k = j + 1
                while k < len(path) and word(path[k], k == j + 1):
                    k += 1
                if k > j + 1:
                    conv, j = path[j + 1 : k], k
            if name and j < len(path) and path[j] == "}":
                out.append((name, conv))
                i = j + 1
                continue
        out.append(path[i])
        i += 1
    return out


def verdict(path):
    """-> (unknown convertors, names used more than once, [(name, convertor)])"""
    ps = [p for p in parse(path) if isinstance(p, tuple)]
    names = [n for n, _ in ps]
    return [c for _, c in ps if c not in CONVERTORS], sorted({n for n in names if names.count(n) > 1}), ps


def plain(path, host):
    """whether a text for the path can be taken apart in one way only"""
    parts = parse(path)
    kinds = [p[1] for p in parts if isinstance(p, tuple)]
    if "path" in kinds[:-1] or host and "float" in kinds and ("str" in kinds or "path" in kinds):
        return False
    sep = "." if host else "/"
    last = None
    for i, p in enumerate(parts):
        if isinstance(p, tuple):
            if last is not None and sep not in parts[last + 1 : i]:
                return False
            last = i
    return not (kinds[-1:] == ["path"] and isinstance(parts[-1], str))


def concrete(path):
    text, values = "", {}
    for p in parse(path):
        if isinstance(p, tuple):
            text += CONVERTORS[p[1]]
            values[p[0]] = CONVERTORS[p[1]]
        else:
            text += p
    return text, values


SEEN = []


async def http_ep(request):
    SEEN.append(request.scope)
    return PlainTextResponse("x")


async def ws_ep(websocket):
    SEEN.append(websocket.scope)
    await websocket.accept()
    await websocket.close()


async def raw(scope, receive, send):
    SEEN.append(scope)
    await PlainTextResponse("x")(scope, receive, send)


async def keep(request):
    return PlainTextResponse("kept")


def serve(app, scope):
    sent = []

    async def main():
        first = [True]

        async def receive():
            if scope["type"] == "websocket":
                if first[0]:
                    first[0] = False
                    return {"type": "websocket.connect"}
                return {"type": "websocket.disconnect", "code": 1000}
            return {"type": "http.request", "body": b"", "more_body": False}

        async def send(m):
            sent.append(m)

        await app(scope, receive, send)

    anyio.run(main)
    return sent


def run_path(case, mon):
    way, path = case["way"], case["path"]
    owner = Router(routes=[Route("/keep-this", keep)]) if way.startswith("router") else Starlette(routes=[Route("/keep-this", keep)])
    router = getattr(owner, "router", owner)
    mount = "ount" in way
    ws = "ebsocket" in way or "ebSocket" in way
    deprecated = way in ("app.route", "app.websocket_route", "router.route", "router.websocket_route")

    def make():
        if way == "Route":
            router.routes.append(Route(path, http_ep))
        elif way == "WebSocketRoute":
            router.routes.append(WebSocketRoute(path, ws_ep))
        elif way == "Mount":
            router.routes.append(Mount(path, app=raw))
        elif way == "Mount-routes":
            router.routes.append(Mount(path, routes=[Route("/", http_ep)]))
        elif way.endswith(".mount"):
            owner.mount(path, raw)
        elif way.endswith("add_route"):
            owner.add_route(path, http_ep)
        elif way.endswith("add_websocket_route"):
            owner.add_websocket_route(path, ws_ep)
        elif way.endswith("websocket_route"):
            owner.websocket_route(path)(ws_ep)
        else:
            owner.route(path)(http_ep)

    compiled = path.rstrip("/") + "/{path:path}" if mount else path
    unknown, twice, params = verdict(compiled)
    wrong = bool(unknown or twice) or not (path.startswith("/") or mount and path == "")
    before = list(router.routes)
    mon.n("paths")
    what = f"{way}({path!r})"
    starts = path.startswith("/") or mount and path == ""
    ok, _ = decide(mon, what, make, wrong, warns=deprecated, mention=([c for c in unknown[:1]] if unknown and starts else ()), named=(compiled, twice, [n for n, _ in params]) if twice and not unknown and starts else None)
    if wrong:
        mon.ok(router.routes == before, "refused-but-registered", what)
    elif ok:
        mon.ok(router.routes[:-1] == before and len(router.routes) == len(before) + 1, "not-registered", what)
        mon.eq(list(router.routes[-1].param_convertors), [n for n, _ in params], "parameters", what)
        text, values = concrete(path.rstrip("/") + "/" if mount else path)
        SEEN.clear()
        serve(owner, (ws_scope if ws else http_scope)(*([] if ws else ["GET"]), text, [("host", "h")]))
        mon.n("routes served")
        if mon.eq(len(SEEN), 1, "not-served", f"{what}: request for {text!r}"):
            got = {k: str(v) for k, v in SEEN[0]["path_params"].items()}
            if mount:
                got.pop("path", None)
            if plain(path, False):
                mon.eq(got, values, "parameters-served", f"{what}: request for {text!r}")
            else:
                mon.eq(sorted(got), sorted(values), "parameters-served", f"{what}: request for {text!r}")
    sent = serve(owner, http_scope("GET", "/keep-this", [("host", "h")]))
    mon.ok(any(m.get("body") == b"kept" for m in sent), "others-harmed", what)
    mon.nontrivial(way, path)


def run_host(case, mon):
    way, host = case["way"], case["path"]
    owner = Router(routes=[Route("/keep-this", keep)]) if way.startswith("router") else Starlette(routes=[Route("/keep-this", keep)])
    router = getattr(owner, "router", owner)
    unknown, twice, params = verdict(host)
    wrong = bool(unknown or twice) or host.startswith("/")
    before = list(router.routes)
    mon.n("hosts")

    def make():
        if way == "Host":
            router.routes.append(Host(host, raw))
        else:
            owner.host(host, raw)

    what = f"{way}({host!r})"
    ok, _ = decide(mon, what, make, wrong, named=(host, twice, [n for n, _ in params]) if twice and not unknown and not host.startswith("/") else None)
    if wrong:
        mon.ok(router.routes == before, "refused-but-registered", what)
    elif ok:
        mon.ok(router.routes[:-1] == before and len(router.routes) == len(before) + 1, "not-registered", what)
        text, values = concrete(host)
        if text and ":" not in text and "/" not in text:
            SEEN.clear()
            serve(owner, http_scope("GET", "/any", [("host", text)]))
            mon.n("routes served")
            if mon.eq(len(SEEN), 1, "not-served", f"{what}: request for {text!r}"):
                got = {k: str(v) for k, v in SEEN[0]["path_params"].items()}
                if plain(host, True):
                    mon.eq(got, values, "parameters-served", what)
                else:
                    mon.eq(sorted(got), sorted(values), "parameters-served", what)
    sent = serve(owner, http_scope("GET", "/keep-this", [("host", "no.such.host.of.them")]))
    mon.ok(any(m.get("body") == b"kept" for m in sent), "others-harmed", what)
    mon.nontrivial(way, host)


# ------------------------------------------------------------------------------------ applications
def run_app(case, mon):
    import contextlib

    ran = []

    @contextlib.asynccontextmanager
    async def lifespan(app):
        ran.append("lifespan")
        yield

    class MW:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            ran.append("mw")
            await self.app(scope, receive, send)

    falsy = case["falsy"]
    handlers = [] if falsy == 1 else [lambda: ran.append("handler")]
    have = {"lifespan": lifespan, "on_startup": handlers, "on_shutdown": handlers, "routes": [Route("/x", http_ep)] if falsy != 2 else [], "middleware": [Middleware(MW)], "exception_handlers": {404: lambda request, exc: PlainTextResponse("nf", 404)}, "debug": True}
    kw = {a: have[a] for a in case["args"]}
    wrong = "lifespan" in kw and ("on_startup" in kw or "on_shutdown" in kw)
    mon.n("application arguments")
    ok, app = decide(mon, f"Starlette({sorted(kw)}, {'empty lists' if falsy == 1 else ''})", lambda: Starlette(**kw), wrong, warns=bool(handlers and ("on_startup" in kw or "on_shutdown" in kw)))
    if ok:
        SEEN.clear()
        sent = serve(app, http_scope("GET", "/x", [("host", "h")]))
        mon.eq(sent[0]["status"], 200 if kw.get("routes") else 404, "app-served", f"{case}")
        mon.eq(ran.count("mw"), 1 if "middleware" in kw else 0, "app-middleware", f"{case}")
    mon.nontrivial(sorted(kw), falsy)


def run_pattern(case, mon):
    ps = case["patterns"]
    # a wildcard is the whole pattern, or "*." and a domain
    wrong = any("*" in p and p != "*" and not (p.startswith("*.") and "*" not in p[2:]) for p in ps)
    mon.n("patterns")
    decide(mon, f"TrustedHostMiddleware({ps})", lambda: TrustedHostMiddleware(raw, allowed_hosts=ps), wrong)
    mon.nontrivial(ps)


def run_late(case, mon):
    served, how = case["served"], case["how"]
    app = Starlette(routes=[Route("/x", http_ep), WebSocketRoute("/w", ws_ep)])
    if served == "http":
        serve(app, http_scope("GET", "/x", [("host", "h")]))
    elif served == "failed":
        serve(app, http_scope("GET", "/missing", [("host", "h")]))
    elif served == "websocket":
        serve(app, ws_scope("/w", [("host", "h")]))
    elif served == "lifespan":
        queue = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

        async def main():
            async def receive():
                return queue.pop(0)

            async def send(m):
                pass

            await app({"type": "lifespan", "state": {}}, receive, send)

        anyio.run(main)
    ran = []

    class MW:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            ran.append(1)
            await self.app(scope, receive, send)

    async def dispatch(request, call_next):
        ran.append(1)
        return await call_next(request)

    mon.n("late middleware")
    ok, _ = decide(mon, f"{how} after {served or 'nothing'}", lambda: app.add_middleware(MW) if how == "add_middleware" else app.middleware("http")(dispatch), bool(served), warns=how == "decorator", kinds=RuntimeError)
    serve(app, http_scope("GET", "/x", [("host", "h")]))
    mon.eq(len(ran), 1 if ok else 0, "late-middleware-runs", f"{case}")
    mon.nontrivial(served, how)


# ------------------------------------------------------------------------------------ other declarations
def run_other(case, mon):
    what, v = case["what"], case["v"]
    mon.n("other declarations")
    OTHERS[what](mon, v, f"{what} {v}")
    mon.nontrivial(what, v % 120)


def o_mount_nothing(mon, v, t):
    app = [None, raw][v % 2]
    routes = [None, [], [Route("/", http_ep)]][v // 2 % 3]
    decide(mon, t, lambda: Mount("/m", app=app, routes=routes), app is None and routes is None)


def o_event_type(mon, v, t):
    name = ["startup", "shutdown", "Startup", "start", "", "startup ", "http", "stop"][v % 8]
    owner = [Starlette(), Router()][v // 8 % 2]
    router = getattr(owner, "router", owner)
    dec = v // 16 % 2
    before = (list(router.on_startup), list(router.on_shutdown))
    f = lambda: None  # noqa: E731
    ok, got = decide(mon, f"{t} {name!r}", lambda: owner.on_event(name)(f) if dec else owner.add_event_handler(name, f), name not in ("startup", "shutdown"), warns=bool(dec))
    after = (list(router.on_startup), list(router.on_shutdown))
    if ok:
        mon.eq(after, (before[0] + [f] * (name == "startup"), before[1] + [f] * (name == "shutdown")), "event-registered", t)
        if dec:
            mon.ok(got is f, "decorator-value", t)
    else:
        mon.eq(after, before, "refused-but-registered", t)


def o_middleware_type(mon, v, t):
    name = ["http", "websocket", "HTTP", "", "lifespan", "http "][v % 6]
    app = Starlette()

    async def d(request, call_next):
        return await call_next(request)

    ok, _ = decide(mon, f"{t} {name!r}", lambda: app.middleware(name)(d), name != "http", warns=True)
    mon.eq(len(app.user_middleware), 1 if ok else 0, "refused-but-registered", t)


def o_handler_key(mon, v, t):
    class E(Exception):
        pass

    class B(BaseException):
        pass

    key = [404, E, Exception, B, KeyboardInterrupt, str, "404", object(), None, 0, BaseException, ValueError][v % 12]
    wrong = not (isinstance(key, int) or isinstance(key, type) and issubclass(key, Exception))
    h = lambda request, exc: PlainTextResponse("x")  # noqa: E731
    ways = [lambda: ExceptionMiddleware(raw, handlers={key: h}), lambda: ExceptionMiddleware(raw).add_exception_handler(key, h)]
    decide(mon, f"{t} {key!r}", ways[v // 12 % 2], wrong)


def o_requires(mon, v, t):
    def a(request):
        pass

    async def b(x, request):
        pass

    def c(req):
        pass

    async def d(self, ws):
        pass

    async def e(websocket):
        pass

    def f():
        pass

    def g(*request):
        pass

    def h(*, request):
        pass

    async def i(Request, requests):
        pass

    class K:
        def m(self, request):
            pass

        def n(self, r):
            pass

    fn, wrong = [(a, 0), (b, 0), (c, 1), (d, 1), (e, 0), (f, 1), (h, 0), (i, 1), (K.m, 0), (K.n, 1)][v % 10]
    scopes = ["x", ["x", "y"], []][v // 10 % 3]
    decide(mon, f"{t} {fn.__name__}", lambda: requires(scopes)(fn), bool(wrong), kinds=Exception)


def o_templates(mon, v, t):
    directory = [None, "de/t", Path("de/t"), ["de/t"], "", [Path("de/t"), "de"]][v % 6]
    env = [None, jinja2.Environment(loader=jinja2.FileSystemLoader("de/t"))][v // 6 % 2]
    options = {"autoescape": True} if v // 12 % 2 and env is None else {}
    kw = {k: x for k, x in (("directory", directory), ("env", env)) if x is not None}
    wrong = bool(directory) == bool(env)
    ok, tm = decide(mon, f"{t} {kw} {options}", lambda: Jinja2Templates(**kw, **options), wrong, warns=bool(options))
    if ok:
        r = tm.TemplateResponse(Request(http_scope("GET", "/")), "t.html")
        mon.eq(r.body, b"t", "template", t)


def o_template_request(mon, v, t):
    tm = Jinja2Templates("de/t")
    r = Request(http_scope("GET", "/"))
    way = v % 8
    f, wrong, warns = [
        (lambda: tm.TemplateResponse(r, "t.html"), False, False), (lambda: tm.TemplateResponse(request=r, name="t.html"), False, False), (lambda: tm.TemplateResponse("t.html", {"request": r}), False, True), (lambda: tm.TemplateResponse(name="t.html", context={"request": r}), False, True),
        (lambda: tm.TemplateResponse("t.html", {}), True, True), (lambda: tm.TemplateResponse("t.html"), True, True), (lambda: tm.TemplateResponse(name="t.html", context={"a": 1}), True, True), (lambda: tm.TemplateResponse(name="t.html"), True, True),
    ][way]
    decide(mon, t, f, wrong, kinds=ValueError, warns=warns)


def o_static(mon, v, t):
    directory = [None, "de", "de/none", "de/file", Path("de/t"), ""][v % 6]
    packages = [None, ["pk"], ["nosuchpackageatall"], [("pk", "other")], [("pk", "none")], []][v // 6 % 6]
    check = v // 36 % 2 == 0
    wrong = bool(check and directory is not None and not os.path.isdir(directory)) or packages in (["nosuchpackageatall"], [("pk", "none")])
    decide(mon, f"{t} {directory!r} {packages} {check}", lambda: StaticFiles(directory=directory, packages=packages, check_dir=check), wrong)


def o_samesite(mon, v, t):
    same = ["lax", "strict", "none", "Lax", "STRICT", "", "loose", "lax ", "lax,strict", "nonee", None, "no"][v % 12]
    wrong = same is not None and same.lower() not in ("lax", "strict", "none")
    r = PlainTextResponse("x")
    before = list(r.raw_headers)
    ways = [lambda: r.set_cookie("a", "b", samesite=same), lambda: r.delete_cookie("a", samesite=same)]
    ok, _ = decide(mon, f"{t} {same!r}", ways[v // 12 % 2], wrong)
    mon.eq(len(r.raw_headers), len(before) + (1 if ok else 0), "refused-but-registered", t)


def o_url(mon, v, t):
    url = ["", "http://a/b"][v % 2]
    scope = [None, http_scope("GET", "/x", [("host", "h")])][v // 2 % 2]
    comp = [{}, {"path": "/c"}][v // 4 % 2]
    wrong = bool(scope and (url or comp)) or bool(comp and url)
    ok, u = decide(mon, f"{t} {bool(url)} {bool(scope)} {bool(comp)}", lambda: URL(url, scope, **comp) if url or scope or not comp else URL(**comp), wrong)
    if ok:
        mon.eq(str(u), "http://h/x" if scope else url or ("/c" if comp else ""), "url", t)


def o_headers(mon, v, t):
    kw = {k: x for k, x, b in (("headers", {"a": "b"}, 1), ("raw", [(b"a", b"b")], 2), ("scope", {"headers": [(b"a", b"b")]}, 4)) if v & b}
    ok, h = decide(mon, f"{t} {sorted(kw)}", lambda: Headers(**kw), len(kw) > 1)
    if ok:
        mon.eq(h.items(), [("a", "b")] if kw else [], "headers", t)


def o_multidict(mon, v, t):
    cls = [ImmutableMultiDict, MultiDict, QueryParams, FormData][v % 4]
    n = v // 4 % 4
    if cls is FormData and n > 1:
        n = 2
    decide(mon, f"{t} {cls.__name__} {n}", lambda: cls(*[[("a", "b")]] * n), n > 1)


def o_urlpath(mon, v, t):
    protocol = ["", "http", "websocket", "https", "ws", "HTTP"][v % 6]
    decide(mon, f"{t} {protocol!r}", lambda: URLPath("/a", protocol=protocol), protocol not in ("", "http", "websocket"))


def o_openapi(mon, v, t):
    content = [{}, {"a": 1}, [], "x", None, 3, b"x", {"a": {"b": [1]}}][v % 8]
    decide(mon, f"{t} {content!r}", lambda: OpenAPIResponse(content), not isinstance(content, dict))


def o_base_dispatch(mon, v, t):
    class Plain(BaseHTTPMiddleware):
        pass

    class Has(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    async def d(request, call_next):
        return await call_next(request)

    mw, wrong = [(Plain(raw), True), (Has(raw), False), (Plain(raw, dispatch=d), False), (BaseHTTPMiddleware(raw), True), (BaseHTTPMiddleware(raw, d), False)][v % 5]
    decide(mon, t, lambda: serve(mw, http_scope("GET", "/", [("host", "h")])), wrong, kinds=Exception, warns=None)


def session(ep, frames):
    queue = [{"type": "websocket.connect"}] + frames + [{"type": "websocket.disconnect", "code": 1000}]
    sent = []

    async def main():
        async def receive():
            return queue.pop(0)

        async def send(m):
            sent.append(m)

        await ep(ws_scope("/", [("host", "h")]), receive, send)

    anyio.run(main)
    return sent


def o_ws_encoding(mon, v, t):
    enc = ["text", "bytes", "json", None, "xml", "", "Text"][v % 7]

    class EP(WebSocketEndpoint):
        encoding = enc

        async def on_receive(self, websocket, data):
            got.append(data)

    got = []
    frame = {"type": "websocket.receive", "bytes": b"1"} if enc == "bytes" else {"type": "websocket.receive", "text": "1"}
    wrong = enc not in ("text", "bytes", "json", None)
    decide(mon, f"{t} {enc!r}", lambda: session(EP, [frame]), wrong, warns=None)
    mon.eq(got, [] if wrong else [{"text": "1", "bytes": b"1", "json": 1, None: "1"}[enc]], "ws-data", t)


def o_json_mode(mon, v, t):
    mode = ["text", "binary", "bytes", "", "TEXT", "json"][v % 6]
    way = v // 6 % 2

    async def ep(scope, receive, send):
        ws = WebSocket(scope, receive, send)
        await ws.accept()
        if way:
            await ws.send_json(1, mode=mode)
        else:
            assert await ws.receive_json(mode=mode) == 1

    wrong = mode not in ("text", "binary")
    frame = {"type": "websocket.receive", "bytes": b"1"} if mode == "binary" else {"type": "websocket.receive", "text": "1"}
    decide(mon, f"{t} {mode!r}", lambda: session(ep, [frame]), wrong, kinds=RuntimeError, warns=None)


def o_config_file(mon, v, t):
    name = [None, "de/env", "de/none", Path("de/env"), Path("de/none"), "de/t"][v % 6]
    got, e, seen = attempt(lambda: Config(name))
    missing = name is not None and not os.path.isfile(name)
    mon.ok(e is None, "refused-right", f"{t}: {e!r}")
    mon.eq([str(name) in str(w.message) for w in seen], [True] if missing else [], "warnings", f"{t} {name!r}")
    if e is None:
        mon.eq(got("A", default="none"), "none" if missing or name is None else "1", "config", t)


def o_router_lifespan(mon, v, t):
    import contextlib

    @contextlib.asynccontextmanager
    async def ls(app):
        yield

    async def agen(app):
        yield

    def sgen(app):
        yield

    lifespan = [None, ls, agen, sgen][v % 4]
    handlers = [None, [], [lambda: None]][v // 4 % 3]
    got, e, seen = attempt(lambda: Router(lifespan=lifespan, on_startup=handlers))
    mon.ok(e is None, "refused-right", f"{t}: {e!r}")
    n = (1 if handlers else 0) + (1 if handlers and lifespan else 0) + (1 if lifespan in (agen, sgen) and lifespan else 0)
    mon.eq(len(seen), n, "warnings", f"{t}: {[str(w.message)[:60] for w in seen]}")


OTHERS = {n: globals()["o_" + n.replace("-", "_")] for n in OTHER}


# ------------------------------------------------------------------------------------ what is not there
def run_missing(case, mon):
    what, v = case["what"], case["v"]
    mon.n("missing things")
    ws = v % 2
    scope = ws_scope("/x", [("host", "h")]) if ws else http_scope("GET", "/x", [("host", "h")])
    for k in ("app", "router", "session", "auth", "user"):
        scope.pop(k, None)

    async def never():
        raise RuntimeError("not to be called")

    conn = [HTTPConnection, Request if not ws else WebSocket][v // 2 % 2]
    make = lambda: conn(scope) if conn is not WebSocket else WebSocket(scope, never, never)  # noqa: E731
    there = v // 4 % 2
    t = f"{case}"
    if what in ("session", "auth", "user"):
        value = {"k": 1}
        if there:
            scope[what] = value
        ok, got = decide(mon, t, lambda: getattr(make(), what), not there, kinds=(AssertionError,), mention=())
        if ok:
            mon.ok(got is value, "value", t)
    elif what == "url_for":
        if there:
            scope["router"] = Router([Route("/named/{a}", http_ep, name="n")])
        ok, got = decide(mon, t, lambda: str(make().url_for("n", a="1")), not there, kinds=(RuntimeError,))
        if ok:
            mon.eq(got, "http://h/named/1", "value", t)
    elif what in ("body", "push"):
        sc = http_scope("GET", "/x", [("host", "h")], extensions={"http.response.push": {}})

        async def receive():
            return {"type": "http.request", "body": b"b", "more_body": False}

        async def send(m):
            pass

        r = Request(sc, *([receive, send] if there else [[], [receive]][what == "push" and v % 2]))
        decide(mon, t, lambda: anyio.run(r.body if what == "body" else lambda: r.send_push_promise("/p")), not there, kinds=(RuntimeError,), warns=None)
    elif what == "scope-type":
        sc = [http_scope("GET", "/"), ws_scope("/"), {"type": "lifespan"}, dict(http_scope("GET", "/"), type="HTTP")][v % 4]
        cls, good = [(HTTPConnection, ("http", "websocket")), (Request, ("http",))][v // 4 % 2]
        decide(mon, f"{cls.__name__}({sc['type']})", lambda: cls(sc), sc["type"] not in good, kinds=(AssertionError,))
    elif what in ("ws-scope-type", "endpoint-scope", "ws-endpoint-scope"):
        sc = [http_scope("GET", "/"), ws_scope("/"), {"type": "lifespan"}][v % 3]
        cls, good = {"ws-scope-type": (WebSocket, "websocket"), "endpoint-scope": (HTTPEndpoint, "http"), "ws-endpoint-scope": (WebSocketEndpoint, "websocket")}[what]
        decide(mon, f"{cls.__name__}({sc['type']})", lambda: cls(sc, never, never), sc["type"] != good, kinds=(AssertionError,))
    elif what == "static-scope":
        if ws:
            decide(mon, t, lambda: serve(StaticFiles(directory="de"), scope), True, kinds=Exception, warns=None)
    elif what == "send-unset":
        if ws:

            async def main():
                await WebSocket(scope, never, never).send_denial_response(Response())

            decide(mon, t, lambda: anyio.run(main), True, kinds=(RuntimeError,))
    mon.nontrivial(what, v % 24)


# ------------------------------------------------------------------------------------ deprecated forms
def run_deprecated(case, mon):
    mon.n("deprecated forms")
    app = Starlette()
    router = Router()

    async def d(request, call_next):
        return await call_next(request)

    h = lambda request, exc: PlainTextResponse("x")  # noqa: E731
    ways = [
        (lambda: app.route("/a")(http_ep), http_ep), (lambda: app.websocket_route("/w")(ws_ep), ws_ep), (lambda: router.route("/a")(http_ep), http_ep), (lambda: router.websocket_route("/w")(ws_ep), ws_ep), (lambda: app.middleware("http")(d), d),
        (lambda: app.on_event("startup")(keep), keep), (lambda: router.on_event("shutdown")(keep), keep), (lambda: app.exception_handler(404)(h), h), (lambda: app.exception_handler(ValueError)(h), h),
    ]
    w = case["w"]
    if w < len(ways):
        f, value = ways[w]
        ok, got = decide(mon, f"deprecated {w}", f, False, warns=True)
        if ok:
            mon.ok(got is value, "decorator-value", f"deprecated {w}")
    else:
        fine = [lambda: app.add_route("/b", http_ep), lambda: app.add_websocket_route("/b", ws_ep), lambda: app.add_exception_handler(404, h), lambda: app.add_event_handler("startup", keep), lambda: app.mount("/z", raw)]
        decide(mon, f"not deprecated {w}", fine[w - len(ways)], False, warns=False)
    mon.nontrivial("deprecated", w)
