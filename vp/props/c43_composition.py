from __future__ import annotations

import warnings

import anyio

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, run_async, ws_scope

ID = "C43"
PROP = dict(
    title="Middleware wraps the application in the declared order, once per connection",
    statement=(
        "For every arrangement of middleware on the application, mounts, hosts, routers and routes, each connection - HTTP, WebSocket or lifespan - passes through exactly the declared middleware, each once: outermost first as listed, add_middleware() in front of those already there, inner ones only when their mount, router or route is the one that serves it; the response passes back in reverse order, also when a middleware answers itself or an exception unwinds. "
        "Middleware are built once per application with the given arguments; error handlers for 500 and Exception sit outside all of them, other exception handlers inside all of them; scope['app'] is the innermost application, and add_middleware() is refused once the application has served."
    ),
    over=["programs", "configurations", "histories", "schedules"],
    quant="every tree of applications, mounts, hosts, routers and routes with middleware of either style at every level, every connection kind, short-circuit and exception point, and history of configuration calls",
    why="tests use one or two middleware at one level; order faults show only in combinations",
    files=["starlette/applications.py", "starlette/routing.py", "starlette/middleware/__init__.py"],
    mechanism=[("stack", "starlette/applications.py:Starlette.build_middleware_stack"), ("registration", "starlette/applications.py:Starlette.add_middleware"), ("inner stacks", "starlette/routing.py:Mount/Route/Router middleware")],
)
TECH = "runtime monitoring: recording middleware at every level and an independent model of the nesting, compared per connection as an ordered enter/leave log"
RULE = "each case is an application tree and a history of connections; non-trivial when logs were compared with the model"
LEVEL_NOTE = "held on the generated trees"
BUDGET = {"quick": (60000, 8), "thorough": (600000, 90)}
REQUIRED = ("connections compared", "short circuits", "exceptions unwound", "websockets", "lifespans", "route middleware", "mount middleware", "router middleware", "nested applications", "added middleware", "late additions refused", "error handlers", "dispatch style", "decorator style", "concurrent")


class Boom(Exception):
    pass


class Handled(Exception):
    pass


def mws(rng, lo, hi):
    return [dict(style=rng.choice(["pure", "pure", "base", "func"]), act=rng.choice([None] * 12 + ["short", "raise", "raise-after", "handled"])) for _ in range(rng.randrange(lo, hi + 1))]


def node(rng, depth):
    k = rng.choice(["route", "route", "mount", "mount", "app", "router", "host"]) if depth < 3 else "route"
    if k == "route":
        return dict(k="route", mw=mws(rng, 0, 2), end=rng.choice(["ok", "ok", "ok", "sync", "boom", "handled", "http", "class"]))
    return dict(k=k, mw=mws(rng, 0, 2), kids=[node(rng, depth + 1) for _ in range(rng.randrange(1, 4))])


def fixed(tier):
    out = []
    P = dict(style="pure", act=None)
    B = dict(style="base", act=None)
    for end in ("ok", "boom", "handled", "http", "sync", "class"):
        for m in ([], [P], [P, P], [P, B], [B, P], [B, B, P]):
            for k in ("mount", "app", "router", "host"):
                out.append(dict(top=m, added=[P, B], kids=[dict(k=k, mw=m, kids=[dict(k="route", mw=m, end=end)]), dict(k="route", mw=m, end="ok")], h500=True, hH=True, seed=1, jit=1, backend="asyncio"))
    for act in ("short", "raise", "raise-after", "handled"):
        for style in ("pure", "base"):
            for at in range(3):
                m = [dict(P), dict(B), dict(P)]
                m[at] = dict(style=style, act=act)
                out.append(dict(top=m, added=[], kids=[dict(k="mount", mw=[P], kids=[dict(k="route", mw=[P], end="ok")])], h500=at != 1, hH=True, seed=1, jit=1, backend="trio"))
                out.append(dict(top=[P], added=[P], kids=[dict(k="mount", mw=m, kids=[dict(k="route", mw=[P], end="ok")])], h500=True, hH=at != 1, seed=1, jit=0, backend="asyncio"))
    return out


def gen(rng, tier):
    return dict(top=mws(rng, 0, 4), added=mws(rng, 0, 3), kids=[node(rng, 0) for _ in range(rng.randrange(1, 4))], h500=rng.random() < 0.5, hH=rng.random() < 0.6, seed=rng.randrange(10**6), jit=rng.choice([0, 1, 2]), backend=gens.backend(rng))


class Build:
    def __init__(self, case, mon):
        self.case, self.mon = case, mon
        self.count = 0
        self.constructed = {}
        self.leaves = []  # (path, host, chain of (name, spec) outer first, end, app labels)
        self.apps = {}

    def name(self, where):
        self.count += 1
        return f"{where}{self.count}"

    def middleware(self, specs, where):
        """-> [(name, spec)], [Middleware]"""
        named, out = [], []
        for s in specs:
            n = self.name(where)
            named.append((n, s))
            out.append(self.one(n, s))
        return named, out

    def parts(self, n, s):
        b = self

        class Pure:
            def __init__(self, app, *args, label, **kw):
                b.constructed[label] = b.constructed.get(label, 0) + 1
                b.mon.ok(args == ("positional",) and kw == {"extra": [n]}, "arguments", f"middleware {n} was built with {args} {kw}")
                self.app = app

            async def __call__(self, scope, receive, send):
                log = scope.setdefault("log", None)
                log = scope["log"] if log is None else log
                if log is None:
                    await self.app(scope, receive, send)
                    return
                log.append("+" + n)
                scope_app = scope.get("app")
                kind = scope["type"]
                if s["act"] == "short" and kind == "http":
                    log.append("!" + n)
                    try:
                        await PlainTextResponse("short " + n)(scope, receive, send)
                    finally:
                        log.append("-" + n)
                    return
                if s["act"] == "raise" and kind == "http":
                    log.append("-" + n)
                    raise Boom(n)
                if s["act"] == "handled" and kind == "http":
                    log.append("-" + n)
                    raise Handled(n)
                try:
                    await self.app(scope, receive, send)
                finally:
                    log.append("-" + n)
                if s["act"] == "raise-after" and kind == "http":
                    raise Boom(n)

        async def dispatch(request, call_next):
            log = request.scope["log"]
            log.append("+" + n)
            try:
                if s["act"] == "short":
                    log.append("!" + n)
                    return PlainTextResponse("short " + n)
                if s["act"] == "raise":
                    raise Boom(n)
                if s["act"] == "handled":
                    raise Handled(n)
                response = await call_next(request)
            finally:
                log.append("-" + n)
            if s["act"] == "raise-after":
                raise Boom(n)
            response.headers.append("x-through", n)
            return response

        class Base(BaseHTTPMiddleware):
            def __init__(self, app, *args, label, **kw):
                b.constructed[label] = b.constructed.get(label, 0) + 1
                b.mon.ok(args == ("positional",) and kw == {"extra": [n]}, "arguments", f"middleware {n} was built with {args} {kw}")
                super().__init__(app)

            async def dispatch(self, request, call_next):
                return await dispatch(request, call_next)

        def factory(app, *args, label, **kw):
            return Pure(app, *args, label=label, **kw)

        if s["style"] == "base":
            self.mon.n("dispatch style")
        return {"pure": Pure, "base": Base, "func": factory}[s["style"]], dispatch

    def one(self, n, s):
        cls, _ = self.parts(n, s)
        return Middleware(cls, "positional", label=n, extra=[n])

    def tree(self, kids, prefix, host, chain, label):
        routes = []
        for kid in kids:
            k = kid["k"]
            i = self.name("n")
            if k == "route":
                named, m = self.middleware(kid["mw"], "end")
                if m:
                    self.mon.n("route middleware")
                routes.append(self.route(i, kid, m))
                self.leaves.append((prefix + "/" + i, host, chain + named, kid["end"], label))
                if not m:
                    routes.append(WebSocketRoute("/w" + i, self.ws))
                else:
                    routes.append(WebSocketRoute("/w" + i, self.ws, middleware=m))
                self.leaves.append((prefix + "/w" + i, host, chain + [(("w", n), s) for n, s in named], "ws", label))
                continue
            named, m = self.middleware(kid["mw"], k)
            sub = chain + named
            if k == "mount":
                if m:
                    self.mon.n("mount middleware")
                routes.append(Mount("/" + i, routes=self.tree(kid["kids"], prefix + "/" + i, host, sub, label), middleware=m))
            elif k == "router":
                if m:
                    self.mon.n("router middleware")
                routes.append(Mount("/" + i, app=Router(routes=self.tree(kid["kids"], prefix + "/" + i, host, sub, label), middleware=m)))
            elif k == "host":
                h = i + ".org"
                routes.append(Host(h, Router(routes=self.tree(kid["kids"], prefix, h if host is None else host, sub, label), middleware=m)) if host is None else Mount("/" + i, app=Router(routes=self.tree(kid["kids"], prefix + "/" + i, host, sub, label), middleware=m)))
            else:
                self.mon.n("nested applications")
                # an inner application has handlers of its own for errors
                inner = Starlette(routes=self.tree(kid["kids"], prefix + "/" + i, host, sub + [("APP", i)], i), middleware=m)
                self.apps[i] = inner
                # middleware of an application are inside its error handler
                for leaf in range(len(self.leaves)):
                    p, hh, c, e, lab = self.leaves[leaf]
                    if ("APP", i) in c:
                        c = [x for x in c if x != ("APP", i)]
                        at = c.index(named[0]) if named else len(chain)
                        self.leaves[leaf] = (p, hh, c[:at] + [("SE", i)] + c[at:at + len(named)] + [("EX", i)] + c[at + len(named):], e, lab)
                routes.append(Mount("/" + i, app=inner))
        return routes

    async def ws(self, websocket):
        websocket.scope["log"].append("endpoint")
        websocket.scope["seen_app"].append(websocket.scope["app"])
        await websocket.accept()
        await websocket.close()

    def route(self, i, kid, m):
        end = kid["end"]

        async def endpoint(request):
            request.scope["log"].append("endpoint")
            request.scope["seen_app"].append(request.app)
            if end == "boom":
                raise Boom("endpoint")
            if end == "handled":
                raise Handled("endpoint")
            if end == "http":
                raise HTTPException(418)
            return PlainTextResponse("ok " + i)

        def sync(request):
            request.scope["log"].append("endpoint")
            request.scope["seen_app"].append(request.app)
            return PlainTextResponse("ok " + i)

        class Klass:
            def __init__(self, scope, receive, send):
                self.a = scope, receive, send

            def __await__(self):
                s = self.a[0]
                s["log"].append("endpoint")
                s["seen_app"].append(s["app"])
                return PlainTextResponse("ok " + i)(*self.a).__await__()

        f = {"sync": sync, "class": Klass}.get(end, endpoint)
        return Route("/" + i, f, middleware=m or None)


def model(case, chain, end):
    """Expected log and outcome of one HTTP request.  chain: outermost first, of middleware
    and ('SE', app) / ('EX', app) handlers.  -> log, result where result is a status, or an exception name"""
    log = []

    def rec(i):
        # returns ("resp", text) or ("exc", kind, responded)
        if i == len(chain):
            if end == "CORE":
                return None
            log.append("endpoint")
            if end == "boom":
                return ("exc", "boom", None)
            if end == "handled":
                return ("exc", "handled", None)
            if end == "http":
                return ("exc", "http", None)
            return ("resp", "ok")
        n, s = chain[i]
        if n == "SE":
            r = rec(i + 1)
            if r[0] == "exc":
                if r[2] is None:
                    return ("exc", r[1], "500")
            return r
        if n == "EX" or n == "RH":
            r = rec(i + 1)
            if r[0] == "exc":
                if r[1] == "http":
                    return ("resp", "http") if r[2] is None else ("exc", "late", r[2])
                if r[1] == "handled" and s == "TOP" and case["hH"]:
                    return ("resp", "handled") if r[2] is None else ("exc", "late", r[2])
            return r
        log.append("+" + n)
        act = s["act"]
        if act == "short":
            log.append("!" + n)
            log.append("-" + n)
            return ("resp", "short " + n)
        if act in ("raise", "handled"):
            log.append("-" + n)
            return ("exc", "boom" if act == "raise" else "handled", None)
        r = rec(i + 1)
        log.append("-" + n)
        if r[0] == "exc" and s["style"] == "base" and r[2] is not None:
            # a response came out before the exception: dispatch() had returned normally
            if act == "raise-after":
                return ("exc", "boom", None)
            return r
        if act == "raise-after" and r[0] == "resp":
            return ("exc", "boom", r[1] if s["style"] != "base" else None)
        return r

    return log, rec(0)


def run(case, mon):
    b = Build(case, mon)
    top_named, top = b.middleware(case["top"], "top")
    app = None
    added = []
    kids = b.tree(case["kids"], "", None, [], "TOP")
    handlers = {}
    seen500 = []

    async def h500(request, exc):
        request.scope["log"].append("H500")
        return PlainTextResponse("five hundred", 500)

    async def hH(request, exc):
        request.scope["log"].append("HH")
        return PlainTextResponse("handled", 409)

    if case["h500"]:
        handlers[[500, Exception][case["seed"] % 2]] = h500
    if case["hH"]:
        handlers[Handled] = hH
    app = Starlette(routes=kids, middleware=top, exception_handlers=handlers)
    b.apps["TOP"] = app
    for s in case["added"]:
        n = b.name("added")
        cls, dispatch = b.parts(n, s)
        mon.n("added middleware")
        if s["style"] == "base" and case["seed"] % 3 == 0:
            mon.n("decorator style")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                app.middleware("http")(dispatch)
            b.constructed[n] = 1
        else:
            app.add_middleware(cls, "positional", label=n, extra=[n])
        top_named.insert(0, (n, s))
    if case["seed"] % 4 == 0:
        # routes added after construction are served like the others
        async def late(request):
            request.scope["log"].append("endpoint")
            request.scope["seen_app"].append(request.app)
            return PlainTextResponse("ok late")

        app.add_route("/late", late)
        b.leaves.append(("/late", None, [], "ok", "TOP"))
    mon.ok(not any(x for x in b.constructed if x in dict(top_named) and b.constructed[x] > 1), "built-early", f"{b.constructed}")
    traces = []

    async def main():
        async def one(idx, leaf):
            path, host, chain, end, label = leaf
            log, seen_app = [], []
            t = Trace()
            hs = [("host", host or "testserver")]
            traces.append((leaf, t, log, seen_app))
            if end == "ws":
                scope = ws_scope(path, hs, log=log, seen_app=seen_app)
                inbox = [{"type": "websocket.connect"}]

                async def receive():
                    return inbox.pop(0) if inbox else {"type": "websocket.disconnect", "code": 1005}

                async def send(m):
                    t.events.append(("send", m))

                try:
                    await app(scope, receive, send)
                except Exception as exc:
                    t.exc = exc
                return
            await call_app(app, http_scope("GET", path, hs, log=log, seen_app=seen_app), ServerSide(t, jit=Jit(case["seed"] + idx, case["jit"])), t)

        # lifespan passes through the application's own middleware
        log = []
        msgs = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
        out = []

        async def receive():
            await anyio.sleep(0)
            return msgs.pop(0)

        async def send(m):
            out.append(m["type"])

        await app({"type": "lifespan", "log": log, "state": {}}, receive, send)
        mon.n("lifespans")
        names = [n for n, s in top_named if s["style"] != "base"]
        mon.eq(log, ["+" + n for n in names] + ["-" + n for n in reversed(names)], "lifespan-order", "lifespan through the middleware")
        mon.eq(out, ["lifespan.startup.complete", "lifespan.shutdown.complete"], "lifespan", "lifespan messages")
        leaves = b.leaves[:12]
        if case["seed"] % 2:
            mon.n("concurrent")
            async with anyio.create_task_group() as tg:
                for i, leaf in enumerate(leaves):
                    tg.start_soon(one, i, leaf)
        else:
            for i, leaf in enumerate(leaves):
                await one(i, leaf)
            for i, leaf in enumerate(leaves[:2]):
                await one(i, leaf)

    run_async(case["backend"], case["seed"], main)
    try:
        app.add_middleware(BaseHTTPMiddleware, dispatch=None)
        mon.fail("late-addition", "add_middleware() was accepted after the application had served")
    except RuntimeError:
        mon.n("late additions refused")
    mon.ok(all(c == (2 if n.startswith("end") else 1) for n, c in b.constructed.items()), "built-again", f"middleware were constructed {b.constructed}")
    for (path, host, chain, end, label), t, log, seen_app in traces:
        mon.n("connections compared")
        if end == "ws":
            mon.n("websockets")
            names = [n[1] if isinstance(n, tuple) else n for n, s in top_named + chain if isinstance(s, dict) and s["style"] != "base"]
            mon.eq(log, ["+" + n for n in names] + ["endpoint"] + ["-" + n for n in reversed(names)], "ws-order", f"WebSocket at {path}")
            mon.ok(t.exc is None and [m["type"] for m in t.sent] == ["websocket.accept", "websocket.close"], "ws", f"{t.exc!r} {t.sent}")
            mon.ok([a is b.apps[label] for a in seen_app] == [True], "scope-app", f"scope['app'] at {path}")
            continue
        full = [("SE", "TOP")] + top_named + [("EX", "TOP")] + chain
        # every request-response endpoint applies the application's exception handlers itself
        if end not in ("class",):
            full = full + [("RH", label)]
        want, result = model(case, full, end)
        got = [x for x in log if not x.startswith("H")]
        if any(s.get("act") for n, s in full if isinstance(s, dict)) or end in ("boom", "handled", "http"):
            if "!" in "".join(want):
                mon.n("short circuits")
            if result[0] == "exc":
                mon.n("exceptions unwound")
        # entering is strictly ordered; a middleware that awaits the next one leaves after all inside it,
        # one of dispatch style has its inner application in a task of its own and may leave before it
        okay = [x for x in got if x[0] != "-"] == [x for x in want if x[0] != "-"] and sorted(got) == sorted(want)
        stack = [(n, s) for n, s in full if isinstance(s, dict) and "-" + n in want]
        if okay:
            for i, (n, s) in enumerate(stack):
                if s["style"] != "base":
                    okay = okay and all(got.index("-" + m) < got.index("-" + n) for m, _ in stack[i + 1:])
        mon.ok(okay, "order", f"{path}: passed {got}, the declared order is {want} ({[(n, s) for n, s in full]})")
        http_protocol(t, mon, expect_complete=False)
        mon.nontrivial(len(full), end, result[0], [s["style"] for n, s in full if isinstance(s, dict)])
        if "endpoint" in log:
            mon.ok([a is b.apps[label] for a in seen_app] == [True], "scope-app", f"scope['app'] at {path} is not the innermost application")
        if result[0] == "resp":
            mon.ok(t.exc is None, "exception", f"{path}: {t.exc!r}")
            kind = result[1]
            if kind == "ok":
                mon.ok(t.status == 200 and t.body.startswith(b"ok"), "response", f"{t.status} {t.body!r}")
                through = [h for h in t.header_all("x-through")]
                mon.eq(through, [n for n, s in reversed(full) if isinstance(s, dict) and s["style"] == "base"], "response-order", "the response's way back")
            elif kind == "handled":
                mon.n("error handlers")
                mon.ok(t.status == 409 and log.count("HH") == 1, "handler", f"{t.status} {log}")
            elif kind == "http":
                mon.ok(t.status == 418, "handler", f"{t.status}")
            else:
                mon.eq(t.body.decode(), kind, "short", "body of the middleware that answered")
        elif result[1] == "boom":
            mon.ok(t.exc is not None, "swallowed", f"{path}: an unhandled exception did not reach the server; status {t.status}")
            if result[2] == "500" and not any(n == "SE" for n, s in chain) and end != "http":
                mon.n("error handlers")
                mon.ok(t.status == 500 and t.complete and (log.count("H500") == 1 and t.body == b"five hundred" if case["h500"] else b"Internal Server Error" in t.body), "error-response", f"{t.status} {t.body[:60]!r} {log}")
                if case["h500"]:
                    left = log.index("H500")
                    mon.ok(all(i < left for i, x in enumerate(log) if x[0] in "+-!"), "handler-inside", f"the 500 handler ran inside the middleware: {log}")
