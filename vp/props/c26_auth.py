from __future__ import annotations

import functools
import json
from urllib.parse import parse_qs, urlsplit

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.responses import JSONResponse
from starlette.routing import Route, WebSocketRoute

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, run_async, ws_scope

ID = "C26"
PROP = dict(
    title="Endpoints run only for requests with the required credentials",
    statement=(
        "For every set of required scopes and every credentials the backend returned, an endpoint decorated with requires - function or method, sync or async, request in any position, HTTP or WebSocket, decorators stacked - runs exactly when the connection holds all of them; "
        "otherwise the client gets the configured status (403 by default), or a 303 to the named route with next set to the original URL, or a closed WebSocket, and the endpoint never runs. "
        "AuthenticationMiddleware gives every HTTP and WebSocket connection exactly the user and credentials its own backend call returned (unauthenticated and empty for None), answers an AuthenticationError through on_error (400 with the message by default, close for WebSockets) without running the application, also when requests run concurrently."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="every combination of required and held scopes (subsets, prefixes, case, duplicates, empty), endpoint flavour, decorator stacking, status or redirect, backend outcome, interleaving of requests",
    why="tests use one scope, 'authenticated' (plus admin), sequentially",
    files=["starlette/authentication.py", "starlette/middleware/authentication.py"],
    mechanism=[("requires / has_required_scope", "starlette/authentication.py"), ("AuthenticationMiddleware", "starlette/middleware/authentication.py")],
)
TECH = "runtime monitoring: endpoint executions counted per request and checked against the credentials issued to that request, under interleaved schedules"
RULE = "each case is an application of 6 protected endpoints and 6-12 concurrent requests; non-trivial when decisions were compared with the policy"
LEVEL_NOTE = "held on the generated policies, requests and schedules"
BUDGET = {"quick": (40000, 9), "thorough": (300000, 100)}
REQUIRED = ("requests", "endpoint ran", "refused with status", "refused with redirect", "websocket refused", "websocket ran", "authentication errors", "anonymous", "stacked decorators", "backend crashed", "one backend inside another")

SCOPES = ["authenticated", "admin", "read", "write", "read:all", "Admin", "a", ""]
FLAVOURS = ["async", "sync", "method", "smethod", "extra", "sextra", "kw", "ws", "wsextra", "wskw"]


def fixed(tier):
    out = []
    for fl in FLAVOURS:
        for need in ([], ["authenticated"], ["admin", "authenticated"], "admin", ["read:all"], ["a", "a"]):
            for redirect in (False, True):
                reqs = [dict(route=0, who=w) for w in (None, "error", [], ["authenticated"], ["admin"], ["admin", "authenticated", "read"], ["read"], ["read:all"], ["Admin"], ["a"], ["administrator", "authenticatedx"], "crash")]
                out.append(dict(routes=[dict(flavour=fl, need=[need], status=None, redirect=redirect)], reqs=reqs, on_error=None, seed=1, jit=1, backend="asyncio", query="a=1&b=%20x", outer=[None, "all", "none"][len(out) % 3]))
    return out


def gen(rng, tier):
    routes = []
    for _ in range(6):
        def need():
            n = [rng.choice(SCOPES[:7]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            return n[0] if len(n) == 1 and rng.random() < 0.5 else n

        routes.append(dict(flavour=rng.choice(FLAVOURS), need=[need() for _ in range(rng.choice([1, 1, 1, 2]))], status=rng.choice([None, None, 401, 404, 418]), redirect=rng.random() < 0.3))
    reqs = []
    for _ in range(rng.randrange(6, 13)):
        r = rng.random()
        i = rng.randrange(len(routes))
        if r < 0.12:
            who = None
        elif r < 0.2:
            who = rng.choice(["error", "error", "crash"])
        elif r < 0.6:
            who = []
            for n in routes[i]["need"]:
                who += [n] if isinstance(n, str) else n
            if rng.random() < 0.5 and who:
                who.pop(rng.randrange(len(who)))
            who += [rng.choice(SCOPES) for _ in range(rng.choice([0, 0, 1]))]
            rng.shuffle(who)
        else:
            who = [rng.choice(SCOPES) for _ in range(rng.randrange(0, 5))]
        reqs.append(dict(route=i, who=who))
    return dict(routes=routes, reqs=reqs, on_error=rng.choice([None, None, "json"]), seed=rng.randrange(10**6), jit=rng.choice([0, 1, 2]), backend=gens.backend(rng), query=rng.choice(["", "", "a=1", "next=/x&b=%2F"]), outer=rng.choice([None, None, "all", "none"]))


class Crash(Exception):
    pass


class Outer(AuthenticationBackend):
    def __init__(self, what):
        self.what = what

    async def authenticate(self, conn):
        return (AuthCredentials(SCOPES), SimpleUser("outer")) if self.what == "all" else None


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        who = json.loads(conn.headers["x-who"])
        n = conn.headers["x-n"]
        await anyio.sleep(0)
        if who == "error":
            raise AuthenticationError(f"bad credentials {n}")
        if who == "crash":
            raise Crash
        if who is None:
            return None
        return AuthCredentials(who if int(n) % 2 else tuple(who)), SimpleUser("user-" + n)


def build(case, ran):
    routes = []

    def note(conn, i):
        ran.append((conn.headers["x-n"], i, conn.user.display_name, conn.user.is_authenticated, list(conn.auth.scopes)))

    def passer(f, *front, **kw):
        # another decorator around, which adds arguments
        @functools.wraps(f)
        async def inner(conn):
            r = f(*front, conn, **kw)
            return await r if hasattr(r, "__await__") else r

        inner.__signature__ = None
        del inner.__wrapped__
        return inner

    for i, r in enumerate(case["routes"]):
        kw = {}
        if r["status"]:
            kw["status_code"] = r["status"]
        if r["redirect"]:
            kw["redirect"] = "login"

        def deco(f, r=r, kw=kw):
            for n in reversed(r["need"]):
                f = requires(n if not isinstance(n, list) or i % 2 else tuple(n), **kw)(f)
            return f

        fl = r["flavour"]
        path = f"/r{i}/x"
        if fl == "async":
            @deco
            async def ep(request, i=i):
                note(request, i)
                await anyio.sleep(0)
                return JSONResponse(i)
            routes.append(Route(path, ep))
        elif fl == "sync":
            @deco
            def ep(request, i=i):
                note(request, i)
                return JSONResponse(i)
            routes.append(Route(path, ep))
        elif fl in ("method", "smethod"):
            if fl == "method":
                async def get(self, request, i=i):
                    note(request, i)
                    return JSONResponse(i)
            else:
                def get(self, request, i=i):
                    note(request, i)
                    return JSONResponse(i)
            routes.append(Route(path, type("Ep", (HTTPEndpoint,), {"get": deco(get)})))
        elif fl == "extra":
            @deco
            async def ep(a, b, request, c=3, i=i):
                assert (a, b, c) == (1, 2, 3)
                note(request, i)
                return JSONResponse(i)
            routes.append(Route(path, passer(ep, 1, 2)))
        elif fl == "sextra":
            @deco
            def ep(a, request, c=3, i=i):
                assert (a, c) == (1, 5)
                note(request, i)
                return JSONResponse(i)
            routes.append(Route(path, passer(ep, 1, c=5)))
        elif fl == "kw":
            @deco
            async def ep(*, request, i=i):
                note(request, i)
                return JSONResponse(i)

            async def call(conn, ep=ep):
                return await ep(request=conn)

            routes.append(Route(path, call))
        elif fl == "ws":
            @deco
            async def ep(websocket, i=i):
                note(websocket, i)
                await websocket.accept()
                await websocket.close(4000 + i)
            routes.append(WebSocketRoute(path, ep))
        elif fl == "wsextra":
            @deco
            async def ep(a, websocket, i=i):
                note(websocket, i)
                await websocket.accept()
                await websocket.close(4000 + i)

            async def call(conn, ep=ep):
                await ep("a", conn)

            routes.append(WebSocketRoute(path, call))
        else:
            @deco
            async def ep(a, websocket, i=i):
                note(websocket, i)
                await websocket.accept()
                await websocket.close(4000 + i)

            async def call(conn, ep=ep):
                await ep(websocket=conn, a=1)

            routes.append(WebSocketRoute(path, call))

    async def login(request):
        return JSONResponse("login")

    routes.append(Route("/login/page", login, name="login"))
    kw = {}
    if case["on_error"] == "json":
        kw["on_error"] = lambda conn, exc: JSONResponse({"error": str(exc), "n": conn.headers["x-n"]}, status_code=499)
    # one around it, whose result counts for nothing below: the application's own backend decides
    outer = [Middleware(AuthenticationMiddleware, backend=Outer(case["outer"]))] if case.get("outer") else []
    return Starlette(routes=routes, middleware=outer + [Middleware(AuthenticationMiddleware, backend=Backend(), **kw)])


def run(case, mon):
    for bad in (lambda req: None, lambda: None):
        try:
            requires("a")(bad)
            mon.fail("bad-signature-accepted", "requires() accepted a function without request or websocket")
        except Exception:
            pass
    ran = []
    if case.get("outer"):
        mon.n("one backend inside another")
    app = build(case, ran)
    traces = {}

    async def main():
        async def one(n, r):
            ws = case["routes"][r["route"]]["flavour"].startswith("ws")
            hs = [("host", "h.example"), ("x-who", json.dumps(r["who"])), ("x-n", str(n))]
            t = traces[n] = Trace()
            path = f"/r{r['route']}/x"
            jit = Jit(case["seed"] + n, case["jit"])
            if not ws:
                await call_app(app, http_scope("GET", path, hs, case["query"]), ServerSide(t, jit=jit), t)
                return
            msgs = [{"type": "websocket.connect"}]

            async def receive():
                await jit()
                return msgs.pop(0) if msgs else {"type": "websocket.disconnect", "code": 1005}

            async def send(m):
                await jit()
                t.events.append(("send", m))

            try:
                await app(ws_scope(path, hs, case["query"]), receive, send)
            except Exception as exc:
                t.exc = exc

        async with anyio.create_task_group() as tg:
            for n, r in enumerate(case["reqs"]):
                tg.start_soon(one, n, r)

    run_async(case["backend"], case["seed"], main)
    shapes = []
    for n, r in enumerate(case["reqs"]):
        rt = case["routes"][r["route"]]
        t = traces[n]
        ws = rt["flavour"].startswith("ws")
        mine = [x for x in ran if x[0] == str(n)]
        what = f"requires({rt['need']}, status {rt['status']}, redirect {rt['redirect']}) {rt['flavour']} endpoint, credentials {r['who']}"
        mon.n("requests")
        if len(rt["need"]) > 1:
            mon.n("stacked decorators")
        if r["who"] == "crash":
            mon.n("backend crashed")
            mon.ok(isinstance(t.exc, Crash), "backend-exception", f"{what}: {t.exc!r}")
            mon.eq(mine, [], "ran-after-crash", what)
            continue
        if t.exc is not None:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        if not ws:
            http_protocol(t, mon)
        if r["who"] == "error":
            mon.n("authentication errors")
            mon.eq(mine, [], "ran-unauthenticated", what)
            if ws:
                mon.eq([m["type"] for m in t.sent], ["websocket.close"], "error-close", what)
            elif case["on_error"] == "json":
                mon.eq((t.status, json.loads(t.body)), (499, {"error": f"bad credentials {n}", "n": str(n)}), "on-error", what)
            else:
                mon.eq((t.status, t.body), (400, f"bad credentials {n}".encode()), "default-on-error", what)
            continue
        held = r["who"] or []
        if r["who"] is None:
            mon.n("anonymous")
        need = [s for x in rt["need"] for s in ([x] if isinstance(x, str) else x)]
        ok = all(s in held for s in need)
        shapes.append((rt["flavour"], ok, r["who"] is None))
        if ok:
            mon.eq(len(mine), 1, "allowed-but-did-not-run", f"{what}: ran {mine}, status {t.status}")
            for x in mine:
                mon.eq(x[1:], (r["route"], "" if r["who"] is None else f"user-{n}", r["who"] is not None, held), "wrong-identity", what)
            if ws:
                mon.n("websocket ran")
                mon.eq([m["type"] for m in t.sent], ["websocket.accept", "websocket.close"], "ws-messages", what)
            else:
                mon.n("endpoint ran")
                mon.eq((t.status, t.body), (200, str(r["route"]).encode()), "endpoint-response", what)
            continue
        mon.eq(mine, [], "ran-without-credentials", what)
        if ws:
            mon.n("websocket refused")
            mon.eq([m["type"] for m in t.sent], ["websocket.close"], "ws-not-closed", f"{what}: {t.sent}")
        elif rt["redirect"]:
            mon.n("refused with redirect")
            mon.eq(t.status, 303, "redirect-status", what)
            u = urlsplit(t.header("location") or "")
            orig = f"http://h.example/r{r['route']}/x" + ("?" + case["query"] if case["query"] else "")
            mon.eq((u.scheme, u.netloc, u.path, parse_qs(u.query)), ("http", "h.example", "/login/page", {"next": [orig]}), "redirect-location", f"{what}: {t.header('location')}")
        else:
            mon.n("refused with status")
            mon.eq(t.status, rt["status"] or 403, "refusal-status", what)
    mon.nontrivial(shapes)
