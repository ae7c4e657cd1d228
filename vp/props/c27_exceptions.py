from __future__ import annotations

import json
import threading

import anyio

from starlette.applications import Starlette
from starlette.endpoints import WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.requests import Request
from starlette.responses import JSONResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute
from starlette.websockets import WebSocket

from vp import gens
from vp.asgi import Jit, drive, http_protocol, http_scope, no_leaks, ws_scope
from vp.props.c13_routing import drive_any

ID = "C27"
PROP = dict(
    title="Every exception is answered by the most specific handler, once",
    statement=(
        "For every set of exception handlers and every exception raised while handling an HTTP or WebSocket connection - in an endpoint, a mounted ASGI application, an inner middleware or routing itself - exactly one handler runs, the one for the HTTPException's status code, else the one for the nearest class in its MRO, with that request and that very exception, and its response is what the client gets; "
        "HTTPException and WebSocketException without a handler become a plain response with the status, detail and headers (no body for 204 and 304) or a close with the code and reason. "
        "Unmatched exceptions (and those raised by handlers) go to the 500/Exception handler or the default 500 and are always re-raised to the server as the same object, and once a response was started no second one is ever sent: a handler does not run and the server sees an error."
    ),
    over=["programs", "configurations"],
    quant="every handler set over a class hierarchy and status codes, sync or async handlers, exception type, raising site, point relative to the response start, HTTP or WebSocket",
    why="tests register one handler and raise one exception",
    files=["starlette/_exception_handler.py", "starlette/middleware/exceptions.py", "starlette/middleware/errors.py", "starlette/applications.py", "starlette/routing.py"],
    mechanism=[("wrap_app_handling_exceptions / _lookup_exception_handler", "starlette/_exception_handler.py"), ("ExceptionMiddleware", "starlette/middleware/exceptions.py"), ("build_middleware_stack", "starlette/applications.py:Starlette")],
)
TECH = "runtime monitoring: handler invocations recorded and compared with an independent dispatch model; response protocol monitored"
RULE = "each case is a handler set, a raising site and 6 exceptions; non-trivial when handler choice and response were compared with the model"
LEVEL_NOTE = "held on the generated applications; handlers that themselves raise a handled exception are left out"
BUDGET = {"quick": (60000, 9), "thorough": (500000, 120)}
REQUIRED = ("exceptions", "handled by class", "handled by ancestor", "handled by status", "default http", "unhandled", "after start handled", "after start unhandled", "websocket", "sync handlers", "handler failed", "default websocket", "websocket responses", "websocket responses too late", "routing errors", "error handler")


class Base(Exception):
    pass


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Other(Exception):
    pass


class Multi(Other, Mid):
    pass


class Side(Base):
    pass


class Dia(Mid, Side):
    """A diamond: its MRO is Dia, Mid, Side, Base."""


class HX(HTTPException):
    pass


class HY(HX, Base):
    pass


class HZ(Side, HX, Mid):
    """MRO: HZ, Side, HX, HTTPException, Mid, Base."""


class WX(WebSocketException):
    pass


class KE(KeyError):
    pass


class GX(ExceptionGroup):
    pass


class HandlerError(Exception):
    pass


CLASSES = dict(Side=Side, Dia=Dia, HZ=HZ, Base=Base, Mid=Mid, Leaf=Leaf, Other=Other, Multi=Multi, HTTPException=HTTPException, HX=HX, HY=HY, WebSocketException=WebSocketException, WX=WX, KE=KE, KeyError=KeyError, LookupError=LookupError, Exception=Exception, GX=GX, ExceptionGroup=ExceptionGroup, ValueError=ValueError)
HKEYS = ["Side", "Dia", "Base", "Mid", "Leaf", "Other", "Multi", "HTTPException", "HX", "HY", "WebSocketException", "KE", "KeyError", "LookupError", "Exception", "GX", "ExceptionGroup", "400", "403", "404", "405", "418", "500", "503", "204"]
EXCS = ["Side", "Dia", "Dia", "Base", "Mid", "Leaf", "Other", "Multi", "KE", "KeyError", "ValueError", "GX"]
HTTP = ["HTTPException", "HX", "HY", "HZ"]
SITES = ["ep", "sync", "class", "mount", "mw", "app", "deep", "outer"]
STAT = [400, 401, 403, 404, 405, 418, 500, 503, 204, 304]


WSITES = ["ep", "class", "recv", "app", "mount", "mw"]


def spec_exc(rng):
    r = rng.random()
    if r < 0.45:
        return [rng.choice(EXCS)]
    return [rng.choice(HTTP), rng.choice(STAT), rng.choice([None, "detail text", "é<b>", ""]), rng.choice([None, None, {"x-h": "1", "WWW-Authenticate": "Basic"}])]


def fixed(tier):
    out = []
    for hk in [[]] + [[k] for k in HKEYS] + [["Base", "Side"], ["Side", "Base"], ["Base", "Mid"], ["Base", "HTTPException"], ["Mid", "HX"], ["Base", "Leaf"], ["Other", "Mid"], ["Mid", "Other"], ["HTTPException", "418"], ["HX", "Base", "HTTPException"], ["500", "Exception"], ["Exception", "500"], ["404", "405"]]:
        for mode in ("async", "sync"):
            for site in ("ep", "app"):
                excs = [[e] for e in EXCS] + [[h, s, None, {"x-h": "1"}] for h in HTTP for s in STAT]
                out.append(dict(handlers=[[k, mode] for k in hk], site=site, excs=excs, start=None, add="init"))
    for site in SITES:
        for start in (None, "start", "part", "done"):
            for hk in ([], ["Base", "418", "HTTPException", "Exception"]):
                out.append(dict(handlers=[[k, "async"] for k in hk], site=site, excs=[["Leaf"], ["Other"], ["HX", 418, None, None], ["HTTPException", 400, "d", None]], start=start, add="deco"))
    for hk in ([], ["404", "405"], ["HTTPException"]):
        out.append(dict(handlers=[[k, "sync"] for k in hk], site="routing", excs=[["r404"], ["r405"], ["m404"]], start=None, add="init"))
    j = 0
    for hk in ([], ["Base"], ["WebSocketException"], ["HTTPException"], ["Exception", "500"], ["418"], ["WX"]):
        for acc in (False, True):
            for wsite in WSITES:
                for ext in (True, False):
                    j += 1
                    out.append(dict(handlers=[[k, ["ws", "wsresp", "wssync"][j % 3]] for k in hk], site="ws", excs=[["Leaf"], ["Other"], ["WebSocketException", 4001, "why"], ["WX", 1008, None], ["WX", 1008, ""], ["HTTPException", 418, None, None]], start=acc, add="init", wsite=wsite, ext=ext))
    for mode in ("fail", "sfail"):
        out.append(dict(handlers=[["Base", mode], ["418", mode]], site="ep", excs=[["Leaf"], ["HX", 418, None, None]], start=None, add="init"))
        out.append(dict(handlers=[["Base", mode], ["Exception", "async"]], site="ep", excs=[["Leaf"]], start=None, add="init"))
    return out


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 3, 4, 6, 8])
    keys = rng.sample(HKEYS, n)
    r = rng.random()
    if r < 0.1:
        return dict(handlers=[[k, "sync" if rng.random() < 0.5 else "async"] for k in keys], site="routing", excs=[["r404"], ["r405"], ["m404"]], start=None, add="init")
    if r < 0.25:
        return dict(wsite=rng.choice(WSITES), ext=rng.random() < 0.6, handlers=[[k, rng.choice(["ws", "wsresp", "wssync"])] for k in keys], site="ws", excs=[rng.choice([[rng.choice(EXCS)], ["WebSocketException", rng.choice([1000, 1008, 4001]), rng.choice([None, "why"])], ["WX", 1011, "é"], ["HTTPException", 418, None, None]]) for _ in range(4)], start=rng.random() < 0.5, add="init")
    return dict(handlers=[[k, rng.choice(["async", "async", "sync", "sync", "fail", "sfail"])] for k in keys], site=rng.choice(SITES), excs=[spec_exc(rng) for _ in range(6)], start=rng.choice([None, None, None, "start", "part", "done"]), add=rng.choice(["init", "deco", "method"]))


def make_exc(spec):
    c = CLASSES[spec[0]]
    if issubclass(c, HTTPException):
        return c(spec[1], detail=spec[2], headers=spec[3])
    if issubclass(c, WebSocketException):
        return c(spec[1], spec[2])
    if issubclass(c, ExceptionGroup):
        return c("g", [ValueError(1)])
    return c("message of " + spec[0])


class Marker(Exception):
    pass


def run(case, mon):
    calls = []
    main_thread = threading.get_ident()
    site = case["site"]
    cur = {}

    def key_of(k):
        return int(k) if k.isdigit() else CLASSES[k]

    def mk_handler(k, mode):
        if mode == "ws":

            async def h(ws, exc):
                calls.append((k, ws, exc, threading.get_ident()))
                if cur["accepted"] or not isinstance(ws, WebSocket):
                    await ws.close(4100)
                else:
                    await ws.accept()
                    await ws.close(4100)

            return h
        if mode in ("wsresp", "wssync"):

            def hr(ws, exc):
                calls.append((k, ws, exc, threading.get_ident()))
                return JSONResponse({"handler": k}, status_code=477)

            async def hra(ws, exc):
                return hr(ws, exc)

            return hr if mode == "wssync" else hra

        def body(request, exc):
            calls.append((k, request, exc, threading.get_ident()))
            if mode in ("fail", "sfail"):
                raise HandlerError(k)
            return JSONResponse({"handler": k, "path": request.url.path, "m": request.method}, status_code=477, headers={"x-handler": k})

        if mode in ("async", "fail"):

            async def h(request, exc):
                await anyio.sleep(0)
                return body(request, exc)

            return h
        return body

    handlers = {key_of(k): mk_handler(k, m) for k, m in case["handlers"]}
    modes = dict(map(tuple, case["handlers"]))

    async def begin(send):
        if case["start"] in ("start", "part", "done"):
            await send({"type": "http.response.start", "status": 201, "headers": [(b"x-first", b"1")]})
        if case["start"] in ("part", "done"):
            await send({"type": "http.response.body", "body": b"part", "more_body": case["start"] == "part"})

    async def asgi(scope, receive, send):
        await begin(send)
        raise cur["exc"]

    async def ep(request):
        raise cur["exc"]

    class Resp:
        # endpoints return a response object whose call fails
        async def __call__(self, scope, receive, send):
            await asgi(scope, receive, send)

    async def ep_resp(request):
        return Resp()

    def sync_ep(request):
        if case["start"]:
            return Resp()
        raise cur["exc"]

    from starlette.endpoints import HTTPEndpoint

    class Cls(HTTPEndpoint):
        async def get(self, request):
            if case["start"]:
                return Resp()
            raise cur["exc"]

    async def ok(request):
        return JSONResponse("ok")

    async def wsep(ws):
        if case["start"]:
            await ws.accept()
        raise cur["exc"]

    class Mw:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            if scope["type"] == "http":
                await asgi(scope, receive, send)
            else:
                await self.app(scope, receive, send)

    endpoint = {"ep": ep_resp if case["start"] else ep, "sync": sync_ep, "class": Cls, "app": None}.get(site)
    routes = [Route("/only-get", ok, methods=["GET"]), Mount("/sub", routes=[Route("/a", ok)])]
    middleware = []
    if site in ("ep", "sync", "class"):
        routes.append(Route("/t", endpoint))
    elif site == "mount":
        routes.append(Mount("/t", app=asgi))
    elif site == "app":
        class A:
            async def __call__(self, scope, receive, send):
                await asgi(scope, receive, send)

        routes.append(Route("/t", A()))
    elif site == "mw":
        routes.append(Mount("/t", routes=[Route("/", ok)], middleware=[Middleware(Mw)]))
    elif site == "deep":
        routes.append(Mount("/t", routes=[Mount("/u", app=Router([Route("/v", ep_resp if case["start"] else ep, middleware=[])]))]))
    elif site == "outer":
        middleware = [Middleware(Mw)]
    elif site == "ws":
        wsite = case.get("wsite", "ep")

        class WsCls(WebSocketEndpoint):
            async def on_connect(self, websocket):
                await wsep(websocket)

        class WsRecv(WebSocketEndpoint):
            async def on_connect(self, websocket):
                if not case["start"]:
                    await wsep(websocket)
                await websocket.accept()

            async def on_receive(self, websocket, data):
                raise cur["exc"]

        class WsApp:
            async def __call__(self, scope, receive, send):
                if case["start"]:
                    await receive()
                    await send({"type": "websocket.accept"})
                raise cur["exc"]

        class WsMw:
            def __init__(self, app):
                self.app = app

            async def __call__(self, scope, receive, send):
                if scope["type"] == "websocket":
                    await WsApp()(scope, receive, send)
                else:
                    await self.app(scope, receive, send)

        if wsite == "mount":
            routes.append(Mount("/t", app=WsApp()))
        elif wsite == "mw":
            routes.append(Mount("/t", routes=[WebSocketRoute("/", wsep)], middleware=[Middleware(WsMw)]))
        else:
            routes.append(WebSocketRoute("/t", {"ep": wsep, "class": WsCls, "recv": WsRecv, "app": WsApp()}[wsite]))
    if case["add"] == "init":
        app = Starlette(routes=routes, exception_handlers=handlers, middleware=middleware)
    else:
        app = Starlette(routes=routes, middleware=middleware)
        for k, h in handlers.items():
            if case["add"] == "deco":
                app.exception_handler(k)(h)
            else:
                app.add_exception_handler(k, h)
    # the 500/Exception handler belongs to the outermost layer
    err = None
    names = [k for k, _ in case["handlers"]]
    for k in names:
        if k in ("500", "Exception"):
            err = k
    inner_names = [k for k in names if k not in ("500", "Exception")]

    def lookup(exc):
        if isinstance(exc, HTTPException) and str(exc.status_code) in inner_names:
            return str(exc.status_code)
        for c in type(exc).__mro__:
            if c.__name__ in inner_names and CLASSES.get(c.__name__) is c:
                return c.__name__
            if c in (HTTPException, WebSocketException):
                return "default"
        return None

    shapes = []
    for spec in case["excs"]:
        calls.clear()
        path, method = {"mount": "/t/x", "mw": "/t/", "deep": "/t/u/v"}.get(site, "/t"), "GET"
        if spec[0] in ("r404", "m404", "r405"):
            path, method = {"r404": ("/nope", "GET"), "m404": ("/sub/zzz", "GET"), "r405": ("/only-get", "POST")}[spec[0]]
            cur["exc"] = None
            mon.n("routing errors")
            wexc = HTTPException(405 if spec[0] == "r405" else 404)
        else:
            wexc = cur["exc"] = make_exc(spec)
        cur["accepted"] = case["start"]
        mon.n("exceptions")
        what = f"{spec} raised in {site} (response {case['start']}), handlers {case['handlers']}"
        if site == "ws":
            mon.n("websocket")
            ws_case(case, app, spec, cur, calls, lookup, mon, what)
            shapes.append(spec[0])
            continue
        t = drive(app, http_scope(method, path, [("host", "h")]))
        no_leaks(t, mon)
        chosen = None if site == "outer" else lookup(wexc)
        inner_calls = [c for c in calls if c[0] not in ("500", "Exception")]
        err_calls = [c for c in calls if c[0] in ("500", "Exception")]
        started = case["start"] is not None
        shapes.append((chosen, started, err is not None))
        for k, conn, exc, th in calls:
            if cur["exc"] is not None and k in inner_names:
                mon.ok(exc is cur["exc"], "handler-got-another-exception", f"{what}: {exc!r}")
            mon.ok(isinstance(conn, Request) and conn.url.path == path, "handler-got-another-request", f"{what}: {conn!r}")
            if modes[k] in ("sync", "sfail"):
                mon.n("sync handlers")
                mon.ok(th != main_thread, "sync-handler-blocks", f"{what}: a synchronous handler ran in the event loop")
        if started:
            # nothing but what the application itself sent
            sent = [(m["type"], m.get("status"), m.get("body"), m.get("more_body")) for m in t.sent]
            want = [("http.response.start", 201, None, None)] + ([("http.response.body", None, b"part", case["start"] == "part")] if case["start"] != "start" else [])
            mon.eq(sent, want, "second-response", what)
            errfail = err is not None and modes[err] in ("fail", "sfail")
            if chosen is not None:
                mon.n("after start handled")
                mon.eq(inner_calls, [], "handler-after-start", what)
                mon.ok(errfail or isinstance(t.exc, RuntimeError) and t.exc is not cur["exc"], "after-start-error", f"{what}: {t.exc!r}")
            else:
                mon.n("after start unhandled")
                mon.ok(errfail or t.exc is cur["exc"], "reraised", f"{what}: the server saw {t.exc!r}")
            continue
        http_protocol(t, mon)
        if chosen == "default":
            mon.n("default http")
            mon.eq(calls, [], "unexpected-handler", what)
            if isinstance(wexc, WebSocketException):
                continue
            mon.ok(t.exc is None, "default-raised", f"{what}: {t.exc!r}")
            if t.start is None:
                mon.fail("no-response", what)
                continue
            bodyless = wexc.status_code in (204, 304)
            mon.eq((t.status, t.body), (wexc.status_code, b"" if bodyless else wexc.detail.encode()), "default-response", what)
            for k, v in (wexc.headers or {}).items():
                mon.eq(t.header_all(k.lower()), [v], "default-headers", what)
            continue
        if chosen is not None:
            failing = modes[chosen] in ("fail", "sfail")
            mon.n("handled by status" if chosen.isdigit() else "handled by class" if type(wexc).__name__ == chosen else "handled by ancestor")
            mon.eq([c[0] for c in inner_calls], [chosen], "wrong-handler", what)
            if not failing:
                mon.eq(err_calls, [], "error-handler-too", what)
                mon.ok(t.exc is None, "handled-but-raised", f"{what}: {t.exc!r}")
                if t.start is not None:
                    mon.eq((t.status, t.header("x-handler"), json.loads(t.body)), (477, chosen, {"handler": chosen, "path": path, "m": method}), "handler-response", what)
                else:
                    mon.fail("no-response", what)
                continue
            mon.n("handler failed")
            mon.ok(isinstance(t.exc, HandlerError), "handler-error-lost", f"{what}: {t.exc!r}")
        else:
            mon.n("unhandled")
            mon.eq(inner_calls, [], "wrong-handler", what)
            if err is None or modes[err] not in ("fail", "sfail"):
                mon.ok(t.exc is cur["exc"], "reraised", f"{what}: the server saw {t.exc!r}")
        if err is None:
            mon.eq((t.status, t.body), (500, b"Internal Server Error"), "default-500", what)
        else:
            mon.n("error handler")
            mon.eq([c[0] for c in err_calls], [err], "error-handler", what)
            if modes[err] not in ("fail", "sfail"):
                mon.eq((t.status, t.header("x-handler")), (477, err), "error-handler-response", what)
                if chosen is None and err_calls:
                    mon.ok(err_calls[0][2] is cur["exc"], "error-handler-exception", f"{what}: {err_calls[0][2]!r}")
    mon.nontrivial(site, case["handlers"], shapes)


def ws_case(case, app, spec, cur, calls, lookup, mon, what):
    exc = cur["exc"]
    ext = case.get("ext", True)
    t = drive_any(app, ws_scope("/t" if case.get("wsite") not in ("mount", "mw") else "/t/", [("host", "h")], extensions={"websocket.http.response": {}} if ext else {}), "asyncio", frames=["x"])
    chosen = lookup(exc)
    types = [m["type"] for m in t.sent]
    pre = ["websocket.accept"] if case["start"] else []

    def refused_or_denied(status, body, name):
        """A handler's response takes the place of accepting the connection, or of nothing."""
        if case["start"]:
            mon.n("websocket responses too late")
            mon.eq(types, pre, "ws-response-after-accept", what)
            mon.ok(isinstance(t.exc, RuntimeError) and t.exc.__cause__ is exc, "ws-too-late", f"{what}: the server saw {t.exc!r}")
            return
        mon.ok(t.exc is None, "ws-handled-but-raised", f"{what}: {t.exc!r}")
        if not ext:
            mon.eq(types, ["websocket.close"], "ws-denial-unsupported", what)
            return
        mon.eq((types, t.sent[0].get("status") if t.sent else None), (["websocket.http.response.start", "websocket.http.response.body"], status), "ws-denial", f"{what}: {t.sent} {t.exc!r}")
        if body is not None and len(t.sent) == 2:
            mon.eq(bytes(t.sent[1].get("body", b"")), body, "ws-denial-body", what)

    if chosen == "default":
        mon.eq(calls, [], "ws-unexpected-handler", what)
        if isinstance(exc, WebSocketException):
            mon.n("default websocket")
            mon.ok(t.exc is None, "ws-default-raised", f"{what}: {t.exc!r}")
            mon.eq(types, pre + ["websocket.close"], "ws-default-close", what)
            if types and types[-1] == "websocket.close":
                mon.eq((t.sent[-1].get("code"), t.sent[-1].get("reason") or ""), (spec[1], spec[2] or ""), "ws-close-code", what)
        else:
            refused_or_denied(spec[1], None, None)
        return
    if chosen is not None:
        mon.eq([(c[0], c[2] is exc) for c in calls], [(chosen, True)], "ws-handler", what)
        mon.ok(all(isinstance(c[1], WebSocket) for c in calls), "ws-handler-conn", what)
        mode = dict(map(tuple, case["handlers"]))[chosen]
        if mode == "ws":
            mon.ok(t.exc is None, "ws-handled-but-raised", f"{what}: {t.exc!r}")
            mon.eq((types, t.sent[-1].get("code") if t.sent else None), (["websocket.accept", "websocket.close"], 4100), "ws-handler-close", what)
        else:
            mon.n("websocket responses")
            refused_or_denied(477, json.dumps({"handler": chosen}, separators=(",", ":")).encode(), chosen)
        return
    mon.eq(calls, [], "ws-unexpected-handler", what)
    mon.ok(t.exc is exc, "ws-reraised", f"{what}: the server saw {t.exc!r}")
    mon.eq(types, pre, "ws-sent-something", what)
