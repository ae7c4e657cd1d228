from __future__ import annotations

import asyncio
import contextlib
import functools
import types
import warnings

import anyio

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.responses import JSONResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.testclient import TestClient

from vp import gens
from vp.asgi import Jit, run_async

ID = "C29"
PROP = dict(
    title="Startup and shutdown code runs once, in order, around the serving phase",
    statement=(
        "For every lifespan of an application or router (async context manager, async or sync generator, startup and shutdown handlers of any flavour, none), behind any shipped middleware and on every start: all startup code runs, once and in order, after the server's startup message and before startup.complete; "
        "all shutdown code runs, once and in order, after the shutdown message and before shutdown.complete; an exception in either is reported as startup.failed or shutdown.failed with its traceback and then re-raised, with no complete message for that phase and no later step run. "
        "What the lifespan yields is merged into the server's state before startup completes (an error if the server has none), every request and websocket then finds it in its state, and what one request adds no other sees."
    ),
    over=["configurations", "crash_points", "histories"],
    quant="every lifespan style and composition, number of steps, failing step and exception, server with and without state, repeated starts, cancellation while serving",
    why="tests exercise one style at a time with at most one failure; the order of steps and the messages at each failure point need every combination",
    files=["starlette/routing.py", "starlette/applications.py", "starlette/testclient.py", "starlette/middleware"],
    mechanism=[("Router.lifespan", "starlette/routing.py:Router.lifespan"), ("_DefaultLifespan, startup, shutdown", "starlette/routing.py"), ("TestClient.lifespan / app_state", "starlette/testclient.py")],
)
TECH = "runtime monitoring: event log of lifespan messages and user steps checked against the required order, with injected failures at every step"
RULE = "each case is one application with a lifespan, started one to three times with a failure or cancellation at a chosen step; non-trivial when the recorded event order was compared"
LEVEL_NOTE = "held on the generated lifespans, failure points and compositions"
BUDGET = {"quick": (40000, 9), "thorough": (300000, 90)}
REQUIRED = ("started", "stopped", "startup failures", "shutdown failures", "state merged", "state unsupported", "cancelled while serving", "server gone while serving", "served under lifespan", "restarts", "nested lifespan stays silent")

STYLES = ["acm", "cls", "agen", "gen", "handlers", "decorated", "added", "none", "partial"]
EXCS = ["ValueError", "Http", "Base", "Assertion", "Runtime", "Group"]
MW = ["gzip", "cors", "session", "host", "https", "base", "errors", "exceptions", "auth"]


class Boom(BaseException):
    pass


def exc_of(kind, tag):
    if kind == "Http":
        return HTTPException(503, tag)
    if kind == "Base":
        return Boom(tag)
    if kind == "Assertion":
        return AssertionError(tag)
    if kind == "Runtime":
        return RuntimeError(tag)
    if kind == "Group":
        return ExceptionGroup(tag, [ValueError(tag)])
    return ValueError(tag)


def fixed(tier):
    out = []
    for style in STYLES:
        for fail in (None, ["up", 0], ["up", 1], ["up", 2], ["down", 0], ["down", 1], ["down", 2]):
            for state in (None, {}, {"a": 1}):
                for support in (True, False):
                    out.append(dict(kind="server", style=style, ups=3, downs=3, fail=fail, exc="ValueError", state=state, support=support, top="starlette", mw=[], cycles=2, backend="asyncio", seed=1, jit=1, cancel=False, sync=0b101, pre={"a": 0, "z": 9}))
    for mw in MW:
        for top in ("starlette", "router", "inner"):
            out.append(dict(kind="server", style="acm", ups=2, downs=2, fail=None, exc="ValueError", state={"a": 1}, support=True, top=top, mw=[mw], cycles=1, backend="asyncio", seed=1, jit=1, cancel=False, sync=0, pre={}))
            out.append(dict(kind="server", style="handlers", ups=2, downs=2, fail=["down", 0], exc="Runtime", state=None, support=False, top=top, mw=[mw], cycles=1, backend="trio", seed=1, jit=1, cancel=False, sync=1, pre={}))
    for style in STYLES:
        for backend in ("asyncio", "trio"):
            out.append(dict(kind="server", style=style, ups=1, downs=2, fail=None, exc="ValueError", state=None, support=True, top="router", mw=[], cycles=1, backend=backend, seed=1, jit=1, cancel=True, sync=0, pre={}))
            for fail in (None, ["down", 0]):
                out.append(dict(kind="server", style=style, ups=1, downs=2, fail=fail, exc="ValueError", state=None, support=True, top="starlette", mw=[], cycles=2, backend=backend, seed=1, jit=1, cancel="drop", sync=1, pre={}))
            for fail in (None, ["up", 1], ["down", 0]):
                for state in (None, {"a": 1, "list": []}):
                    out.append(dict(kind="client", style=style, ups=2, downs=2, fail=fail, exc="ValueError", state=state, mw=[], backend=backend, sync=2, cycles=2, writes=[["a", 5], ["b", 1]], top="starlette"))
    return out


def gen(rng, tier):
    style = rng.choice(STYLES)
    ups, downs = rng.randrange(0, 5), rng.randrange(0, 5)
    fail = None
    r = rng.random()
    if r < 0.3 and ups:
        fail = ["up", rng.randrange(ups)]
    elif r < 0.55 and downs:
        fail = ["down", rng.randrange(downs)]
    state = rng.choice([None, {}, {"a": 1}, {"a": 1, "list": []}, {gens.lower(rng): gens.json_value(rng) for _ in range(3)}])
    c = dict(style=style, ups=ups, downs=downs, fail=fail, exc=rng.choice(EXCS), state=state, mw=[rng.choice(MW) for _ in range(rng.choice([0, 0, 1, 2, 4]))],
             backend=gens.backend(rng), sync=rng.randrange(256), cycles=rng.choice([1, 1, 2, 3]), top=rng.choice(["starlette", "starlette", "router", "inner"]))
    if rng.random() < 0.15:
        c.update(kind="client", writes=[[rng.choice("ab"), rng.randrange(9)] for _ in range(3)])
        if c["exc"] in ("Base", "Group"):
            c["exc"] = "ValueError"
        return c
    c.update(kind="server", support=rng.random() < 0.75, seed=rng.randrange(10**6), jit=rng.randrange(3), cancel=rng.choice([False] * 8 + [True, "drop"]), pre=rng.choice([{}, {"a": 0, "z": 1}, {"z": 1}]))
    return c


def mw_class(name):
    from starlette.authentication import AuthCredentials, SimpleUser

    class Backend:
        async def authenticate(self, conn):
            return AuthCredentials(["x"]), SimpleUser("x")

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    return {
        "gzip": Middleware(GZipMiddleware, minimum_size=0),
        "cors": Middleware(CORSMiddleware, allow_origins=["*"]),
        "session": Middleware(SessionMiddleware, secret_key="k"),
        "host": Middleware(TrustedHostMiddleware, allowed_hosts=["testserver"]),
        "https": Middleware(HTTPSRedirectMiddleware),
        "base": Middleware(Base),
        "errors": Middleware(ServerErrorMiddleware),
        "exceptions": Middleware(ExceptionMiddleware),
        "auth": Middleware(AuthenticationMiddleware, backend=Backend()),
    }[name]


class W:
    """What happened, and the user code that makes it happen."""

    def __init__(self, case):
        self.case = case
        self.log = []
        self.cycle = 0
        self.active = True
        self.raised = None
        self.apps = []
        self.keep = []

    def hit(self, phase, i):
        self.log.append((phase, i))
        f = self.case["fail"]
        # only the last start fails: the earlier ones must be complete
        if f and f[0] == phase and f[1] == i and self.cycle == self.case["cycles"] - 1:
            self.raised = exc_of(self.case["exc"], f"boom-{phase}-{i}")
            raise self.raised

    async def ahit(self, phase, i):
        if self.case.get("jit", 1):
            await anyio.sleep(0)
        self.hit(phase, i)


def build(case, w):
    style = case["style"]
    state = case["state"]
    kw = {}
    ups, downs = case["ups"], case["downs"]
    handlers = {"up": [], "down": []}

    def handler(phase, i, k):
        if (case["sync"] >> (k % 8)) & 1:
            def h():
                w.hit(phase, i)
        else:
            async def h():
                await w.ahit(phase, i)
        # a function, a partial, an object with __call__, a bound method, a partial of one
        flavour = (k + case["sync"]) % 5
        if flavour == 1:
            return functools.partial(h)
        if flavour == 0:
            return h
        is_async = not (case["sync"] >> (k % 8)) & 1

        class Obj:
            if is_async:
                async def __call__(self):
                    await h()

                async def method(self):
                    await h()
            else:
                def __call__(self):
                    h()

                def method(self):
                    h()

        o = Obj()
        w.keep.append(o)
        return o if flavour == 2 else o.method if flavour == 3 else functools.partial(o)

    for i in range(ups):
        handlers["up"].append(handler("up", i, i))
    for i in range(downs):
        handlers["down"].append(handler("down", i, i + 3))

    @contextlib.asynccontextmanager
    async def acm(app):
        w.apps.append(app)
        for i in range(ups):
            await w.ahit("up", i)
        w.log.append(("body",))
        try:
            yield state
        finally:
            w.log.append(("finally",))
            for i in range(downs):
                w.hit("down", i) if case.get("cancel") else await w.ahit("down", i)

    async def agen(app):
        w.apps.append(app)
        for i in range(ups):
            await w.ahit("up", i)
        w.log.append(("body",))
        try:
            yield state
        finally:
            w.log.append(("finally",))
            for i in range(downs):
                w.hit("down", i)

    def sgen(app):
        w.apps.append(app)
        for i in range(ups):
            w.hit("up", i)
        w.log.append(("body",))
        try:
            yield state
        finally:
            w.log.append(("finally",))
            for i in range(downs):
                w.hit("down", i)

    class Cls:
        def __init__(self, app):
            w.apps.append(app)

        async def __aenter__(self):
            for i in range(ups):
                await w.ahit("up", i)
            w.log.append(("body",))
            return state

        async def __aexit__(self, *exc):
            w.log.append(("finally",))
            for i in range(downs):
                w.hit("down", i)

    if style == "acm":
        kw["lifespan"] = acm
    elif style == "partial":
        kw["lifespan"] = functools.partial(acm)
    elif style == "cls":
        kw["lifespan"] = Cls
    elif style == "agen":
        kw["lifespan"] = agen
    elif style == "gen":
        kw["lifespan"] = sgen
    elif style == "handlers":
        kw["on_startup"] = tuple(handlers["up"])
        kw["on_shutdown"] = handlers["down"]

    @contextlib.asynccontextmanager
    async def inner_lifespan(app):
        w.log.append(("INNER",))
        yield

    def read(conn):
        return {k: getattr(conn.state, k) for k in list(case["state"] or {}) + ["a", "b", "own"] if hasattr(conn.state, k)}

    async def endpoint(request):
        before = read(request)
        for k, v in case.get("writes", []):
            setattr(request.state, k, v)
        request.state.own = 1
        return JSONResponse(dict(before=before))

    async def wsend(ws):
        await ws.accept()
        before = read(ws)
        ws.state.own = 2
        await ws.send_json(dict(before=before))
        await ws.close()

    routes = [
        Route("/", endpoint), WebSocketRoute("/ws", wsend),
        Mount("/inner", Starlette(routes=[Route("/", endpoint)], lifespan=inner_lifespan)),
        Mount("/r", Router(routes=[Route("/", endpoint)], lifespan=inner_lifespan)),
        Host("h.test", Router(routes=[Route("/", endpoint)], lifespan=inner_lifespan)),
    ]
    mws = [mw_class(m) for m in case["mw"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["top"] == "router":
            app = target = Router(routes=routes, middleware=mws, **kw)
        elif case["top"] == "starlette":
            app = target = Starlette(routes=routes, middleware=mws, **kw)
        else:  # middleware applied from outside, around an application
            app = target = Starlette(routes=routes, **kw)
            for m in mws:
                app = m.cls(app, *m.args, **m.kwargs)
        router = target if isinstance(target, Router) else target.router
        if style == "decorated":
            obj = target
            for h in handlers["up"]:
                obj.on_event("startup")(h)
            for h in handlers["down"]:
                obj.on_event("shutdown")(h)
        elif style == "added":
            for h in handlers["up"]:
                target.add_event_handler("startup", h)
            for h in handlers["down"]:
                target.add_event_handler("shutdown", h)
    return app, target, router


def expected(case, w, last, wants_state):
    """-> (events, outcome) of one start; outcome in 'ok', 'boom', 'nostate'"""
    cm = case["style"] in ("acm", "cls", "agen", "gen", "partial")
    none = case["style"] == "none"
    ev = [("recv", "lifespan.startup")]
    fail = case["fail"] if last and not none else None
    if not none:
        for i in range(case["ups"]):
            ev.append(("up", i))
            if fail == ["up", i]:
                return ev + [("send", "lifespan.startup.failed")], "boom"
    if cm:
        ev.append(("body",))
    if wants_state == "unsupported":
        # the context manager is left through its exit, like on any error in its body
        ev.append(("finally",))
        for i in range(case["downs"]):
            ev.append(("down", i))
            if fail == ["down", i]:
                return ev + [("send", "lifespan.startup.failed")], "boom"
        return ev + [("send", "lifespan.startup.failed")], "nostate"
    ev.append(("send", "lifespan.startup.complete"))
    ev.append(("recv", "lifespan.shutdown"))
    if cm:
        ev.append(("finally",))
    if not none:
        for i in range(case["downs"]):
            ev.append(("down", i))
            if fail == ["down", i]:
                return ev + [("send", "lifespan.shutdown.failed")], "boom"
    return ev + [("send", "lifespan.shutdown.complete")], "ok"


def run_server(case, mon):
    w = W(case)
    app, target, router = build(case, w)
    cm = case["style"] in ("acm", "cls", "agen", "gen", "partial")
    for cycle in range(case["cycles"]):
        w.cycle = cycle
        w.log.clear()
        w.raised = None
        last = cycle == case["cycles"] - 1
        scope = {"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}}
        server_state = dict(case["pre"])
        if case["support"]:
            scope["state"] = server_state
        wants_state = None
        if cm and case["state"] is not None:
            wants_state = "supported" if case["support"] else "unsupported"
        at_complete = []
        msgs = []
        result = {}
        jit = Jit(case["seed"], case["jit"])
        cancelled = case["cancel"] is True and last and not case["fail"] and wants_state != "unsupported"
        dropped = case["cancel"] == "drop" and last
        gone = ConnectionResetError("the server is gone")

        async def main():
            n = [0]

            async def receive():
                await jit()
                n[0] += 1
                if n[0] == 2 and cancelled:
                    w.log.append(("cancel",))
                    result["scope"].cancel()
                    await anyio.sleep_forever()
                if n[0] == 2 and dropped:
                    w.log.append(("recv", "lifespan.shutdown"))
                    raise gone
                if n[0] > 2:
                    w.log.append(("extra-recv",))
                    await anyio.sleep(0)
                    return {"type": "lifespan.shutdown"}
                m = {"type": "lifespan.startup" if n[0] == 1 else "lifespan.shutdown"}
                w.log.append(("recv", m["type"]))
                return m

            async def send(message):
                w.log.append(("send", message["type"]))
                msgs.append(message)
                if message["type"] == "lifespan.startup.complete":
                    at_complete.append(dict(server_state))
                await jit()

            with anyio.CancelScope() as cs:
                result["scope"] = cs
                try:
                    await app(scope, receive, send)
                    result["out"] = None
                except anyio.get_cancelled_exc_class():
                    raise
                except BaseException as exc:  # noqa
                    from vp.engine import CaseTimeout
                    if isinstance(exc, CaseTimeout):
                        raise
                    result["out"] = exc

        run_async(case["backend"], case["seed"], main)
        if cycle:
            mon.n("restarts")
        ev, outcome = expected(case, w, last, wants_state)
        if dropped and outcome == "ok":
            # the server's channel fails while the application serves: it is shut down, and says that this was no clean one
            mon.n("server gone while serving")
            outcome = "gone"
            ev[-1] = ("send", "lifespan.shutdown.failed")
            w.raised = gone
        if cancelled:
            mon.n("cancelled while serving")
            mon.ok([m["type"] for m in msgs] in (["lifespan.startup.complete"], ["lifespan.startup.complete", "lifespan.shutdown.failed"]), "cancelled-messages", f"messages of a lifespan cancelled while serving: {msgs}")
            got = [e for e in w.log if e[0] in ("up", "down", "finally", "cancel", "body") or e == ("send", "lifespan.startup.complete")]
            want = [e for e in ev if e[0] in ("up", "down", "finally", "body") or e == ("send", "lifespan.startup.complete")]
            want.insert(want.index(("send", "lifespan.startup.complete")) + 1, ("cancel",))
            if not cm:
                # handlers: a handler that awaits is itself cancelled; none may be skipped to run a later one
                got, want = got[: want.index(("cancel",)) + 1], want[: want.index(("cancel",)) + 1]
            mon.eq(got, want, "cancelled-cleanup", "steps of a lifespan cancelled while serving")
            mon.nontrivial(case["style"], "cancel", case["backend"])
            continue
        if not mon.eq(w.log, ev, "event-order", f"lifespan events of start {cycle + 1} ({case['style']})"):
            return
        mon.nontrivial(case["style"], len(ev), outcome, case["top"], len(case["mw"]))
        mon.ok(("INNER",) not in w.log, "inner-lifespan", "the lifespan of a mounted application was run")
        mon.n("nested lifespan stays silent")
        out = result.get("out")
        mon.n("started" if ("send", "lifespan.startup.complete") in ev else "startup failures")
        if outcome == "ok":
            mon.n("stopped")
            mon.ok(out is None, "raised", f"the lifespan raised {out!r}")
        else:
            m = msgs[-1]
            if m["type"] == "lifespan.shutdown.failed":
                mon.n("shutdown failures")
            text = m.get("message")
            if outcome == "gone":
                mon.ok(out is gone and "the server is gone" in str(text), "not-reraised", f"the server's channel failed and the application ended with {out!r}, {text!r}")
            elif outcome == "boom":
                mon.ok(out is w.raised, "not-reraised", f"the lifespan failed with {w.raised!r} and the application ended with {out!r}")
                mon.ok(isinstance(text, str) and "boom-" in text and type(w.raised).__name__ in text and "Traceback" in text and ", in " in text, "failed-message", f"the failure message is {text!r}")
            else:
                mon.n("state unsupported")
                mon.ok(isinstance(out, RuntimeError), "state-unsupported", f"a state was yielded to a server without state and the application ended with {out!r}")
                mon.ok(isinstance(text, str) and "RuntimeError" in text and "Traceback" in text, "failed-message", f"the failure message is {text!r}")
        if at_complete and case["support"]:
            want = dict(case["pre"])
            if wants_state:
                want.update(case["state"])
                mon.n("state merged")
            mon.eq(at_complete[0], want, "state", "server state when startup.complete was sent")
            mon.ok(scope.get("state") is server_state, "state-object", "the server's state object was replaced in the lifespan scope")
        if cm and case["top"] != "router":
            mon.ok(w.apps[-1] is target, "lifespan-app", f"the lifespan was called with {w.apps[-1]!r}")


def run_client(case, mon):
    w = W(case)
    app, target, router = build(case, w)
    cm = case["style"] in ("acm", "cls", "agen", "gen", "partial")
    state = dict(case["state"]) if cm and case["state"] else {}
    for cycle in range(case["cycles"]):
        w.cycle = cycle
        w.log.clear()
        w.raised = None
        last = cycle == case["cycles"] - 1
        ev, outcome = expected(case, w, last, None)
        user = [e for e in ev if e[0] in ("up", "down", "body", "finally")]
        fail_up = outcome == "boom" and case["fail"][0] == "up"
        out = None
        entered = False
        try:
            with TestClient(app, backend=case["backend"], base_url="https://testserver") as client:
                entered = True
                want_up = [e for e in user if e[0] in ("up", "body")]
                mon.eq(list(w.log), want_up, "client-startup", "steps run when the client was entered")
                for path in ("/", "/inner/", "/r/", "/"):
                    r = client.get(path)
                    mon.eq(r.status_code, 200, "client-status", path)
                    mon.n("served under lifespan")
                    mon.eq(r.json()["before"], state_json(state), "request-state", f"state seen by a request to {path}")
                with client.websocket_connect("wss://testserver/ws") as ws:
                    mon.eq(ws.receive_json()["before"], state_json(state), "websocket-state", "state seen by a websocket")
                mon.eq(list(w.log), want_up, "client-serving", "steps run while serving")
        except Exception as exc:
            out = exc
        if fail_up:
            mon.ok(not entered, "client-entered", "the client was entered although startup failed")
        mon.eq(list(w.log), user, "client-order", "steps run by the client")
        if outcome == "boom":
            mon.ok(out is w.raised, "client-raise", f"startup or shutdown failed with {w.raised!r}, the client raised {out!r}")
        elif out is not None:
            raise out
        mon.nontrivial("client", case["style"], outcome, cycle)


def state_json(state):
    import json

    return json.loads(json.dumps(state))


def run(case, mon):
    if case["kind"] == "client":
        run_client(case, mon)
    else:
        run_server(case, mon)
