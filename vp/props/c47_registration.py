from __future__ import annotations

import functools
import warnings

import anyio

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_scope, run_async, ws_scope

ID = "C47"
PROP = dict(
    title="However an application is put together, it behaves the same",
    statement=(
        "Routes, WebSocket routes, mounts, hosts, exception handlers, event handlers and middleware behave identically - order, methods, names, reversing, schema, responses, logs - whether given to the constructor of the application or router, registered with the add_* and mount()/host() methods, or with a decorator, before or (routes, mounts and hosts) after the first request; decorators return the function they were given. "
        "Lists, tuples and dicts given to a constructor are never modified, may be shared by several applications or changed afterwards without any effect on an application, and what one application registers never appears in another."
    ),
    over=["programs", "configurations", "histories"],
    quant="every sequence of registrations of every kind, split at any point between constructor, method and decorator, on applications and routers, before or after serving",
    why="tests use each registration style once with one route; a style that drops an argument or the order is not seen",
    files=["starlette/applications.py", "starlette/routing.py"],
    mechanism=[("application methods", "starlette/applications.py:Starlette"), ("router methods", "starlette/routing.py:Router"), ("copies", "starlette/applications.py:Starlette.__init__")],
)
TECH = "runtime monitoring: differential oracle - the same declarations registered in mixed styles and all through the constructor are driven with the same probes; logs, messages, reversed URLs and schemas are compared"
RULE = "each case is a list of declarations with a style each, and its probes; non-trivial when both builds were compared"
LEVEL_NOTE = "held on the generated sequences of registrations"
BUDGET = {"quick": (40000, 8), "thorough": (400000, 80)}
REQUIRED = ("builds compared", "probes compared", "added routes", "decorated routes", "websockets", "mounts", "hosts", "exception handlers", "event handlers", "middleware", "names reversed", "schemas compared", "late routes", "shared containers", "routers", "defaults")


class Err(Exception):
    pass


class Sub(Err):
    pass


KEYS = ["Err", "Sub", 404, 405, 418, 500, "Exception", "HTTPException"]
EXC = {"Err": Err, "Sub": Sub, "Exception": Exception, "HTTPException": HTTPException}
PATHS = ["/a", "/b", "/a/{x}", "/a/{x:int}", "/", "", "/{rest:path}", "/b/", "/c/{y}.txt"]
METHODS = [None, None, None, ["GET"], ["POST"], ["post", "PUT"], ["DELETE", "GET"], []]
ENDS = ["async", "sync", "class", "partial", "err", "sub", "http418", "boom"]


def decl(rng, depth=0):
    k = rng.choice(["route"] * 5 + ["ws", "ws", "mount", "host", "startup", "shutdown", "exc", "exc", "mw"])
    if depth and k in ("startup", "shutdown", "exc", "mw"):
        k = "route"
    if depth > 1 and k in ("mount", "host"):
        k = "route"
    d = dict(k=k, style=rng.choice(["add", "deco"]))
    if k == "route":
        d.update(path=rng.choice(PATHS), methods=rng.choice(METHODS), name=rng.choice([None, None, "n1", "n2", "n3"]), schema=rng.random() < 0.8, end=rng.choice(ENDS))
    elif k == "ws":
        d.update(path=rng.choice(PATHS), name=rng.choice([None, "n1", "w1"]), end=rng.choice(["async", "class"]))
    elif k in ("mount", "host"):
        d.update(path=rng.choice(["/m", "/a", "/{p}", "", "/m/n", "/"]) if k == "mount" else rng.choice(["a.org", "{sub}.org", "testserver"]), name=rng.choice([None, "m1", "n1"]), subs=[decl(rng, depth + 1) for _ in range(rng.randrange(1, 4))])
    elif k == "exc":
        d.update(key=rng.choice(KEYS), status=rng.choice([200, 409, 500]), sync=rng.random() < 0.3)
    return d


def fixed(tier):
    out = []
    i = 0
    for what in ("app", "router"):
        for style in ("add", "deco"):
            for split in (0, 1, 2):
                for ms in METHODS[2:]:
                    for end in ("async", "sync", "class"):
                        i += 1
                        ds = [
                            dict(k="route", style=style, path="/a", methods=ms, name="n1" if i % 2 else None, schema=bool(i % 3), end=end),
                            dict(k="ws", style=style, path="/a", name="w1" if i % 2 else None, end="class" if i % 2 else "async"),
                            dict(k="mount", style=style, path="/m", name="m1" if i % 2 else None, subs=[dict(k="route", style=style, path="/b", methods=None, name="n2", schema=True, end="async")]),
                            dict(k="host", style=style, path="a.org", name="h1" if i % 2 else None, subs=[dict(k="route", style=style, path="/b", methods=None, name="n2", schema=True, end="async")]),
                            dict(k="route", style=style, path="/b", methods=["GET", "POST"], name=None, schema=False, end="err"),
                        ]
                        if what == "app":
                            ds += [dict(k="exc", style=style, key=KEYS[i % len(KEYS)], status=409, sync=bool(i % 2)), dict(k="exc", style=style, key="Err", status=411, sync=False), dict(k="mw", style=style), dict(k="mw", style="add")]
                        ds += [dict(k="startup", style=style), dict(k="startup", style="add"), dict(k="shutdown", style=style), dict(k="shutdown", style="add")]
                        out.append(dict(what=what, decls=ds, split=split * len(ds) // 3, late=bool(i % 2), default=what == "router" and i % 3 == 0, slashes=True, share=bool(i % 2), debug=False, seed=i, backend=["asyncio", "trio"][i % 2]))
    return out


def gen(rng, tier):
    ds = [decl(rng) for _ in range(rng.randrange(2, 9))]
    return dict(what=rng.choice(["app", "app", "router"]), decls=ds, split=rng.randrange(0, len(ds) + 1), late=rng.random() < 0.3, default=rng.random() < 0.3, slashes=rng.random() < 0.7, share=rng.random() < 0.5, debug=rng.random() < 0.1, seed=rng.randrange(10**6), backend=gens.backend(rng))


class World:
    """Endpoints, handlers and middleware of one build: marks go to self.log"""

    def __init__(self, case, mon):
        self.case, self.mon = case, mon
        self.log = []

    def endpoint(self, d, mark):
        log = self.log
        end = d["end"]

        def act(request):
            log.append((mark, request.method, dict(request.path_params)))
            if end == "err":
                raise Err(mark)
            if end == "sub":
                raise Sub(mark)
            if end == "http418":
                raise HTTPException(418, mark)
            if end == "boom":
                raise ZeroDivisionError(mark)
            return PlainTextResponse(mark)

        if end == "sync":

            def ep(request):
                """summary: sync"""
                return act(request)
        elif end == "class":

            class Ep(HTTPEndpoint):
                async def get(self, request):
                    """summary: get"""
                    return act(request)

                def post(self, request):
                    return act(request)

            ep = Ep
        elif end == "partial":

            async def full(a, request):
                return act(request)

            ep = functools.partial(full, 1)
            ep.__name__ = "partial_" + mark
            return ep
        else:

            async def ep(request):
                """summary: async"""
                await anyio.sleep(0)
                return act(request)

        ep.__name__ = "ep_" + mark
        return ep

    def ws_endpoint(self, d, mark):
        log = self.log
        if d["end"] == "class":

            class W(WebSocketEndpoint):
                async def on_connect(self, websocket):
                    log.append((mark, "ws", dict(websocket.path_params)))
                    await websocket.accept()
                    await websocket.close(3000)

            W.__name__ = "ws_" + mark
            return W

        async def ws(websocket):
            log.append((mark, "ws", dict(websocket.path_params)))
            await websocket.accept()
            await websocket.close(3001)

        ws.__name__ = "ws_" + mark
        return ws

    def handler(self, d, mark):
        def respond(request, exc):
            self.log.append((mark, type(exc).__name__))
            return PlainTextResponse(mark, status_code=d["status"])

        if d["sync"]:
            return respond

        async def h(request, exc):
            return respond(request, exc)

        return h

    def event(self, mark, sync):
        if sync:

            def e():
                self.log.append((mark,))
        else:

            async def e():
                self.log.append((mark,))

        return e

    def dispatch(self, mark):
        async def dispatch(request, call_next):
            self.log.append(("+" + mark,))
            r = await call_next(request)
            r.headers["x-" + mark] = "1"
            return r

        return dispatch

    def route(self, d, mark):
        kw = {}
        if d["name"] is not None:
            kw["name"] = d["name"]
        return self.endpoint(d, mark), kw

    def ctor_routes(self, ds, prefix):
        """Route objects of declarations, all through constructors"""
        out = []
        for i, d in ds:
            mark = f"{prefix}{i}"
            if d["k"] == "route":
                out.append(Route(d["path"] or "/", self.endpoint(d, mark), methods=d["methods"], name=d["name"], include_in_schema=d["schema"]))
            elif d["k"] == "ws":
                out.append(WebSocketRoute(d["path"] or "/", self.ws_endpoint(d, mark), name=d["name"]))
            elif d["k"] == "mount":
                out.append(Mount(d["path"], Router(self.ctor_routes(list(enumerate(d["subs"])), mark + ".")), name=d["name"]))
            elif d["k"] == "host":
                out.append(Host(d["path"], Router(self.ctor_routes(list(enumerate(d["subs"])), mark + ".")), name=d["name"]))
        return out

    def register(self, target, i, d, prefix=""):
        mark = f"{prefix}{i}"
        mon = self.mon
        deco = d["style"] == "deco"

        def same(decorated, f):
            mon.ok(decorated is f, "decorator-result", f"the {d['k']} decorator returned {decorated!r} for {f!r}")

        if d["k"] == "route":
            f, kw = self.endpoint(d, mark), {}
            if d["name"] is not None:
                kw["name"] = d["name"]
            if not d["schema"]:
                kw["include_in_schema"] = False
            if d["methods"] is not None:
                kw["methods"] = d["methods"]
            if deco:
                mon.n("decorated routes")
                same(target.route(d["path"] or "/", **kw)(f), f)
            else:
                mon.n("added routes")
                target.add_route(d["path"] or "/", f, **kw)
        elif d["k"] == "ws":
            f, kw = self.ws_endpoint(d, mark), {}
            if d["name"] is not None:
                kw["name"] = d["name"]
            if deco:
                same(target.websocket_route(d["path"] or "/", **kw)(f), f)
            else:
                target.add_websocket_route(d["path"] or "/", f, **kw)
        elif d["k"] in ("mount", "host"):
            mon.n(d["k"] + "s")
            inner = Router()
            for j, s in enumerate(d["subs"]):
                self.register(inner, j, s, mark + ".")
            kw = {} if d["name"] is None else {"name": d["name"]}
            (target.mount if d["k"] == "mount" else target.host)(d["path"], app=inner, **kw)
        elif d["k"] == "exc":
            mon.n("exception handlers")
            f, key = self.handler(d, mark), EXC.get(d["key"], d["key"])
            if deco:
                same(target.exception_handler(key)(f), f)
            else:
                target.add_exception_handler(key, f)
        elif d["k"] in ("startup", "shutdown"):
            mon.n("event handlers")
            f = self.event(mark, i % 2)
            if deco:
                same(target.on_event(d["k"])(f), f)
            else:
                target.add_event_handler(d["k"], f)
        elif d["k"] == "mw":
            mon.n("middleware")
            f = self.dispatch(mark)
            if deco:
                same(target.middleware("http")(f), f)
            else:
                target.add_middleware(BaseHTTPMiddleware, dispatch=f)

    def constructor(self, decls):
        case = self.case
        routes = self.ctor_routes([(i, d) for i, d in decls if d["k"] in ("route", "ws", "mount", "host")], "")
        kw = dict(routes=routes)
        ups = [self.event(str(i), i % 2) for i, d in decls if d["k"] == "startup"]
        downs = [self.event(str(i), i % 2) for i, d in decls if d["k"] == "shutdown"]
        if ups:
            kw["on_startup"] = ups
        if downs:
            kw["on_shutdown"] = downs
        if case["what"] == "router":
            if case["default"]:

                async def default(scope, receive, send):
                    self.log.append(("default", scope["type"]))
                    if scope["type"] == "http":
                        await PlainTextResponse("default", 299)(scope, receive, send)
                    else:
                        await send({"type": "websocket.close", "code": 4000})

                kw["default"] = default
            kw["redirect_slashes"] = case["slashes"]
            return Router, kw
        hs = {}
        for i, d in decls:
            if d["k"] == "exc":
                hs[EXC.get(d["key"], d["key"])] = self.handler(d, str(i))
        kw["exception_handlers"] = hs
        kw["middleware"] = [Middleware(BaseHTTPMiddleware, dispatch=self.dispatch(str(i))) for i, d in decls if d["k"] == "mw"]
        kw["debug"] = case["debug"]
        return Starlette, kw


def copy_of(kw):
    return {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}


def probes(case):
    out = []
    for p in ("/a", "/a/", "/a/5", "/a/zz", "/b", "/b/", "/", "/c/q.txt", "/m", "/m/a", "/m/b", "/m/n/b", "/zz/b", "/nope/x"):
        for m in ("GET", "POST"):
            out.append(("http", m, p, "testserver"))
    out += [("http", m, "/a", "testserver") for m in ("PUT", "DELETE", "HEAD")]
    out += [("http", "GET", p, h) for p in ("/a", "/b", "/a/7") for h in ("a.org", "b.org")]
    out += [("ws", None, p, h) for p in ("/a", "/b", "/a/5", "/m/b", "/nope") for h in ("testserver", "a.org")]
    return out


NAMES = ["n1", "n2", "n3", "w1", "m1", "h1", "m1:n1", "m1:n2", "n1:n1", "n1:n2", "h1:n2"]
PARAMS = [{}, {"x": 5}, {"x": "q"}, {"y": "z"}, {"rest": "r/s"}, {"path": "/t"}, {"p": "q"}, {"p": "q", "x": 5}, {"sub": "s"}, {"sub": "s", "x": 5}]


def observe(case, world, app):
    """Everything a user can see of an application"""
    res = {"urls": {}, "out": [], "schema": None, "lifespan": None}

    async def main():
        log = world.log
        log.clear()
        sent = []
        msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

        async def receive():
            return msgs.pop(0)

        async def send(m):
            sent.append(m["type"])

        await app({"type": "lifespan", "state": {}}, receive, send)
        res["lifespan"] = (list(log), sent)
        for idx, (kind, method, path, host) in enumerate(probes(case)):
            if len(case["decls"]) > 3 and (idx + case["seed"]) % 2:
                continue
            log.clear()
            t = Trace()
            if kind == "http":
                await call_app(app, http_scope(method, path, [("host", host)]), ServerSide(t, jit=Jit(case["seed"] + idx, 0)), t)
                hs = sorted((k, v) for k, v in t.headers if k != b"content-length") if t.start else None
                res["out"].append((kind, method, path, host, t.status if t.start else None, hs, t.body if not case["debug"] or t.status != 500 else b"", repr(t.exc), list(log)))
            else:
                inbox = [{"type": "websocket.connect"}]
                sent = []

                async def receive2():
                    return inbox.pop(0) if inbox else {"type": "websocket.disconnect", "code": 1005}

                async def send2(m):
                    sent.append((m["type"], m.get("code")))

                exc = None
                try:
                    await app(ws_scope(path, [("host", host)]), receive2, send2)
                except Exception as e:
                    exc = repr(e)
                res["out"].append((kind, method, path, host, sent, exc, list(log)))

    run_async(case["backend"], case["seed"], main)
    for n in NAMES + [f"{'ep' if d['k'] == 'route' else 'ws'}_{i}" for i, d in enumerate(case["decls"]) if d["k"] in ("route", "ws")]:
        for ps in PARAMS:
            try:
                u = app.url_path_for(n, **ps)
                res["urls"][n, str(ps)] = (str(u), u.protocol, u.host)
            except NoMatchFound:
                pass
            except (AssertionError, ValueError) as exc:
                res["urls"][n, str(ps)] = repr(exc)
    res["schema"] = SchemaGenerator({}).get_schema(app.routes)
    return res


def run(case, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        go(case, mon)


def go(case, mon):
    decls = [(i, d) for i, d in enumerate(case["decls"]) if case["what"] == "app" or d["k"] not in ("exc", "mw")]
    if case["what"] == "router":
        mon.n("routers")
        if case["default"]:
            mon.n("defaults")
    # reference: everything through the constructor.  add_middleware() puts its middleware in front.
    first = [(i, d) for i, d in decls if i < case["split"]]
    rest = [(i, d) for i, d in decls if i >= case["split"]]
    ref = World(case, mon)
    mws = [x for x in reversed(rest) if x[1]["k"] == "mw"] + [x for x in first if x[1]["k"] == "mw"]
    cls, kw = ref.constructor([x for x in decls if x[1]["k"] != "mw"] + mws)
    a = cls(**kw)
    # the mixed build
    w = World(case, mon)
    cls, kw = w.constructor(first)
    before = copy_of(kw)
    late = []
    b = cls(**kw)
    if case["share"]:
        mon.n("shared containers")
        # the caller goes on using its containers
        twin_log = World(case, mon)
        twin = cls(**kw)
        twin_before = list(twin.routes)
        for k, v in kw.items():
            if isinstance(v, list):
                v.append("junk")
            elif isinstance(v, dict):
                v["junk"] = "junk"
    for i, d in rest:
        if case["late"] and d["k"] in ("route", "ws", "mount", "host"):
            late.append((i, d))
        else:
            w.register(b, i, d)
    if late:
        mon.n("late routes")

        async def serve():
            t = Trace()
            await call_app(b, http_scope("GET", "/first", [("host", "x")]), ServerSide(t), t)

        run_async(case["backend"], case["seed"], serve)
        for i, d in late:
            w.register(b, i, d)
    if case["share"]:
        for k, v in kw.items():
            if isinstance(v, list):
                mon.ok(v == before[k] + ["junk"], "container", f"the list given as {k} was changed: {v}")
            elif isinstance(v, dict):
                mon.ok(v == {**before[k], "junk": "junk"}, "container", f"the dict given as {k} was changed: {v}")
        mon.ok(twin.routes == twin_before and "junk" not in twin.routes, "shared", "registering with one application changed another one")
    else:
        mon.ok(copy_of(kw) == before, "container", "a container given to the constructor was changed")
    mon.n("builds compared")
    ra, rb = observe(case, ref, a), observe(case, w, b)
    mon.eq(rb["lifespan"], ra["lifespan"], "lifespan", "events of the mixed build / constructor build")
    for x, y in zip(rb["out"], ra["out"]):
        mon.n("probes compared")
        if x[0] == "ws":
            mon.n("websockets")
        if not mon.ok(x == y, "probe", f"registered with methods and decorators: {x}; given to the constructor: {y}"):
            break
        mon.nontrivial(x[4:6], case["what"], len(decls), case["split"])
    mon.ok(rb["urls"] == ra["urls"], "names", f"reversing differs: {sorted(set(rb['urls'].items()) ^ set(ra['urls'].items()))[:4]}")
    mon.n("names reversed", len(ra["urls"]))
    mon.ok(rb["schema"] == ra["schema"], "schema", f"{rb['schema']} / {ra['schema']}")
    if ra["schema"].get("paths"):
        mon.n("schemas compared")
