from __future__ import annotations

import functools
import threading

import anyio

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route, Router

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, run_async, split_body, chunking

ID = "C44"
PROP = dict(
    title="HTTPEndpoint runs the handler for the request's method, or answers 405",
    statement=(
        "For every class-based endpoint and request method, exactly the handler of that method runs, once, on an instance of its own, with the request (HEAD falls back to get only when there is no head handler), and its response, exception or background task takes effect unchanged, whether handlers are async or sync, inherited or overridden. "
        "Any other method - unknown ones and names of the endpoint's own attributes included - runs no handler and gets a 405 whose Allow lists exactly the methods with a handler: raised as an HTTPException for the handlers of an application, answered directly outside one."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="every subset of handlers of either kind at each level of inheritance, request method, interleaving of requests, place (alone, router, mount, application, with or without a 405 handler, method-restricted route)",
    why="tests define get and post and request one unknown method",
    files=["starlette/endpoints.py", "starlette/routing.py"],
    mechanism=[("dispatch", "starlette/endpoints.py:HTTPEndpoint.dispatch"), ("405", "starlette/endpoints.py:HTTPEndpoint.method_not_allowed"), ("Allow", "starlette/endpoints.py:HTTPEndpoint.__init__")],
)
TECH = "runtime monitoring: recording handlers on generated endpoint classes; the handler log, instance identities and ASGI messages are compared with an independent lookup over the class description"
RULE = "each case is an endpoint class hierarchy and up to 14 (partly concurrent) requests; non-trivial when handler logs were compared"
LEVEL_NOTE = "held on the generated classes and requests"
BUDGET = {"quick": (40000, 7), "thorough": (400000, 80)}
REQUIRED = ("requests compared", "handlers run", "405 responses", "405 handlers", "head fallbacks", "own head handlers", "attribute names", "custom methods", "inherited handlers", "restricted routes", "exceptions", "bodies", "background tasks", "concurrent", "base classes", "overridden")

STD = ["get", "head", "post", "put", "patch", "delete", "options"]
EXTRA = ["trace", "connect", "propfind", "purge", "query"]
# methods no handler can have: names of the endpoint's own machinery
OWN = ["DISPATCH", "METHOD_NOT_ALLOWED", "SCOPE", "RECEIVE", "SEND", "_ALLOWED_METHODS", "__INIT__", "__CLASS__", "__DICT__", "__AWAIT__", "__DOC__", "__MODULE__", "__REPR__", "__HASH__"]
UNKNOWN = ["FOO", "G", "GETS", "GE", "M-SEARCH", "LINK", "X", "DELETED", "HEADS", "OPTION", "A!#$%&'*+.^_`|~1"]
KINDS = ["async", "async", "sync", "static-async", "partial-sync", "callable"]
OUT = ["text"] * 8 + ["stream", "background", "http-exc", "boom", "body", "body", "status"]
PLACES = ["alone", "router", "router-mount", "app", "app", "app-mount", "app-in-app", "app-handler", "app-handler-exc", "exc-mw", "restricted", "restricted-router"]


class Boom(Exception):
    pass


def handler(rng):
    return dict(kind=rng.choice(KINDS), out=rng.choice(OUT))


def level(rng, k):
    return {m: handler(rng) for m in rng.sample(STD, min(k, 7)) + (rng.sample(EXTRA, rng.randrange(1, 3)) if rng.random() < 0.3 else [])}


def fixed(tier):
    out = []
    i = 0
    every = [m.upper() for m in STD] + ["TRACE", "FOO"]
    # every subset of the standard handlers, at one level
    for mask in range(1, 128):
        hs = {m: dict(kind=KINDS[(mask + j) % len(KINDS)], out="text") for j, m in enumerate(STD) if mask >> j & 1}
        i += 1
        out.append(dict(levels=[hs], place=PLACES[i % 9], restrict=[], methods=every, conc=bool(i % 2), override=None, seed=i, jit=1, backend=["asyncio", "trio"][i % 2]))
    for place in PLACES:
        for kind in ("async", "sync"):
            for ov in (None, "not-allowed", "dispatch"):
                i += 1
                out.append(dict(levels=[{"get": dict(kind=kind, out="text"), "propfind": dict(kind=kind, out="text")}, {"post": dict(kind=kind, out="body")}], place=place, restrict=["GET", "POST"], methods=["GET", "HEAD", "POST", "PUT", "PROPFIND"] + OWN, conc=False, override=ov, seed=i, jit=1, backend=["asyncio", "trio"][i % 2]))
    for o in sorted(set(OUT)):
        for kind in sorted(set(KINDS)):
            for place in ("alone", "app", "app-handler"):
                i += 1
                out.append(dict(levels=[{"get": dict(kind=kind, out=o), "head": dict(kind=kind, out=o), "post": dict(kind=kind, out=o)}], place=place, restrict=[], methods=["GET", "HEAD", "POST"], conc=bool(i % 2), override=None, seed=i, jit=1, backend=["asyncio", "trio"][i % 2]))
    return out


def gen(rng, tier):
    levels = [level(rng, rng.choice([0, 1, 1, 2, 3, 5, 7])) for _ in range(rng.choice([1, 1, 2, 3]))]
    ms = [m.upper() for l in levels for m in l]
    pool = [m.upper() for m in STD + EXTRA] + UNKNOWN + OWN + ms * 2 + ["HEAD"] * 3
    return dict(levels=levels, place=rng.choice(PLACES), restrict=rng.sample(["GET", "POST", "PUT", "HEAD", "DELETE", "PROPFIND"], rng.randrange(1, 4)), methods=[rng.choice(pool) for _ in range(rng.randrange(2, 12))] + ["HEAD", "GET"], conc=rng.random() < 0.5, override=rng.choice([None] * 5 + ["not-allowed", "dispatch", "init"]), seed=rng.randrange(10**6), jit=rng.choice([0, 1, 2]), backend=gens.backend(rng))


def make(case, log, chain):
    """Endpoint class with recording handlers -> class"""

    def core(label, h):
        def respond(request, self_id, instance):
            log.append((request.scope["token"], label, self_id, threading.get_ident()))
            if instance is not None:
                # instances carry what is set on them for one request only
                seen = getattr(instance, "mark", None)
                instance.mark = request.scope["token"]
                if seen is not None or instance.scope is not request.scope:
                    log.append((request.scope["token"], "SHARED-INSTANCE", seen, 0))
            o = h["out"]
            text = label + "|" + request.scope["token"] + "|" + request.method
            if o == "http-exc":
                raise HTTPException(418, detail=text)
            if o == "boom":
                raise Boom(text)
            if o == "stream":
                return StreamingResponse(iter([text[:3], text[3:]]))
            if o == "background":
                return PlainTextResponse(text, background=BackgroundTask(lambda: log.append((request.scope["token"], "BG", None, 0))))
            if o == "status":
                return PlainTextResponse(text, status_code=405, headers={"x-own": "1"})
            return PlainTextResponse(text)

        async def abody(request, self_id, instance):
            if h["out"] == "body":
                b = await request.body()
                r = respond(request, self_id, instance)
                return PlainTextResponse(r.body + b"|" + b)
            return respond(request, self_id, instance)

        k = h["kind"]
        if k == "static-async":

            async def f(request):
                return await abody(request, None, None)

            return staticmethod(f)
        if k == "callable":

            class Call:
                async def __call__(self, request):
                    return await abody(request, None, None)

            return Call()
        if k == "partial-sync":
            return functools.partial(lambda x, request: respond(request, None, None), 1)
        if k == "sync":

            def g(self, request):
                return respond(request, id(self), self)

            return g

        async def a(self, request):
            await anyio.sleep(0)
            return await abody(request, id(self), self)

        return a

    cls = HTTPEndpoint
    for n, lv in enumerate(case["levels"]):
        ns = {}
        if n == len(case["levels"]) - 1:
            if case["override"] == "not-allowed":

                async def method_not_allowed(self, request):
                    log.append((request.scope["token"], "OWN-405", None, 0))
                    return PlainTextResponse("mine", status_code=405, headers={"Allow": "x"})

                ns["method_not_allowed"] = method_not_allowed
            elif case["override"] == "dispatch":

                async def dispatch(self):
                    log.append((self.scope["token"], "DISPATCH", None, 0))
                    await HTTPEndpoint.dispatch(self)

                ns["dispatch"] = dispatch
            elif case["override"] == "init":

                def __init__(self, scope, receive, send):
                    HTTPEndpoint.__init__(self, scope, receive, send)
                    self.extra = 1

                ns["__init__"] = __init__
        for m, h in lv.items():
            ns[m] = core(f"L{n}.{m}", h)
        cls = type(f"E{n}", (cls,), ns)
        chain.append(cls)
    return cls


def run(case, mon):
    log = []
    chain = []
    E = make(case, log, chain)
    place = case["place"]
    seen405 = []

    async def on405(request, exc):
        seen405.append((request.scope["token"], exc.status_code, dict(exc.headers or {})))
        return PlainTextResponse("custom 405", status_code=405, headers=exc.headers)

    async def on_http(request, exc):
        if exc.status_code == 405:
            return await on405(request, exc)
        return PlainTextResponse(exc.detail, status_code=exc.status_code)

    restrict = None
    prefix = ""
    in_app = True
    if place == "alone":
        app, in_app = E, False
    elif place == "router":
        app, in_app = Router([Route("/e", E)]), False
    elif place == "router-mount":
        app, in_app, prefix = Mount("/m", routes=[Route("/e", E)]), False, "/m"
    elif place == "app":
        app = Starlette(routes=[Route("/e", E)])
    elif place == "app-mount":
        app, prefix = Starlette(routes=[Mount("/m", app=E)]), "/m"
    elif place == "app-in-app":
        app, prefix = Starlette(routes=[Mount("/m", app=Starlette(routes=[Route("/e", E)]))]), "/m"
    elif place == "app-handler":
        app = Starlette(routes=[Route("/e", E)], exception_handlers={405: on405})
    elif place == "app-handler-exc":
        app = Starlette(routes=[Route("/e", E)], exception_handlers={HTTPException: on_http})
    elif place == "exc-mw":
        app, in_app = ExceptionMiddleware(Router([Route("/e", E)])), False
    elif place == "restricted":
        restrict = case["restrict"]
        app = Starlette(routes=[Route("/e", E, methods=restrict)])
    else:
        restrict = case["restrict"]
        app, in_app = Router([Route("/e", E, methods=restrict)]), False
    resolved = {}
    for n, lv in enumerate(case["levels"]):
        for m, h in lv.items():
            resolved[m] = (f"L{n}.{m}", h)
            if n < len(case["levels"]) - 1:
                mon.n("inherited handlers")
    traces = []
    loop_thread = []

    async def main():
        loop_thread.append(threading.get_ident())
        # the classes it inherits from are endpoints of their own, with their own methods
        order = list(range(len(chain) - 1))
        if case["seed"] % 2:
            order.reverse()
        for n in order:
            have = {m for lv in case["levels"][: n + 1] for m in lv if m in STD}
            t = Trace()
            await call_app(Router([Route("/e", chain[n])]), http_scope("NOPE", "/e", token="base"), ServerSide(t, [(b"", False)], Jit(0, 0)), t)
            got = {x.strip() for x in (t.header("allow") or "").split(",") if x.strip()} if t.start else None
            mon.n("base classes")
            mon.ok(got is not None and t.status == 405 and got - {"HEAD"} == {m.upper() for m in have} - {"HEAD"}, "allow", f"Allow {got} of the base class E{n} with handlers {sorted(have)}: {t.status} {t.exc!r}")

        async def one(i, method):
            t = Trace()
            body = b"body-%d" % i
            traces.append((i, method, t, body))
            import random

            sv = ServerSide(t, split_body(body, chunking(random.Random(i), len(body))), Jit(case["seed"] + i, case["jit"]))
            await call_app(app, http_scope(method, prefix + "/e", [("content-length", str(len(body)))], token=f"t{i}"), sv, t)

        if case["conc"]:
            mon.n("concurrent")
            async with anyio.create_task_group() as tg:
                for i, m in enumerate(case["methods"]):
                    tg.start_soon(one, i, m)
        else:
            for i, m in enumerate(case["methods"]):
                await one(i, m)

    run_async(case["backend"], case["seed"], main)
    allowed = {m.upper() for m in STD if m in resolved}
    for i, method, t, body in traces:
        tok = f"t{i}"
        mon.n("requests compared")
        mine = [x for x in log if x[0] == tok]
        http_protocol(t, mon, method=method, expect_complete=False)
        mon.ok(not any(x[1] == "SHARED-INSTANCE" for x in mine), "instance", f"{method}: the endpoint instance was shared between requests: {mine}")
        names = [x[1] for x in mine if x[1] not in ("BG", "SHARED-INSTANCE")]
        if restrict is not None:
            mon.n("restricted routes")
            ok_methods = set(restrict) | ({"HEAD"} if "GET" in restrict else set())
            if method not in ok_methods:
                mon.eq(names, [], "restricted", f"{method} through a route for {restrict}")
                mon.ok(t.status == 405 and t.exc is None, "restricted-405", f"{method} through a route for {restrict}: {t.status} {t.exc!r}")
                mon.eq({x.strip() for x in (t.header("allow") or "").split(",")}, ok_methods, "allow", "Allow of the route")
                continue
        if case["override"] == "dispatch":
            mon.n("overridden")
            mon.eq(names[:1], ["DISPATCH"], "dispatch", f"{method}: overridden dispatch")
            names = names[1:]
        low = method.lower()
        target = resolved.get(low)
        if target is None and method == "HEAD" and "get" in resolved:
            target = resolved["get"]
            mon.n("head fallbacks")
        elif target is not None and method == "HEAD":
            mon.n("own head handlers")
        mon.nontrivial(place, method, target and (target[0], target[1]["kind"], target[1]["out"]), len(resolved), case["override"])
        if target is None:
            if method in OWN:
                mon.n("attribute names")
            if case["override"] == "not-allowed":
                mon.n("overridden")
                mon.eq(names, ["OWN-405"], "not-allowed-hook", f"{method} with handlers {sorted(resolved)}")
                mon.ok(t.status == 405 and t.body == b"mine", "not-allowed-hook", f"{t.status} {t.body!r} {t.exc!r}")
                continue
            mon.n("405 responses")
            mon.eq(names, [], "handler-ran", f"{method} with handlers {sorted(resolved)}")
            if not mon.ok(t.exc is None and t.complete and t.status == 405, "405", f"{method} with handlers {sorted(resolved)} at {place}: {t.status} {t.exc!r}"):
                continue
            got = [x.strip() for x in (t.header("allow") or "").split(",") if x.strip()]
            mon.ok(len(got) == len(set(got)) and set(got) - {"HEAD"} == allowed - {"HEAD"} and ("HEAD" in got or "HEAD" not in allowed) and ("HEAD" not in got or allowed & {"HEAD", "GET"}), "allow", f"Allow {got} for handlers {sorted(resolved)}")
            if place in ("app-handler", "app-handler-exc"):
                mon.n("405 handlers")
                mon.ok(t.body == b"custom 405" and [x for x in seen405 if x[0] == tok] and [x for x in seen405 if x[0] == tok][0][1] == 405, "405-handler", f"{method}: the application's handler for 405 did not see it: {t.body!r}")
                mon.eq(len([x for x in seen405 if x[0] == tok]), 1, "405-handler", "calls of the 405 handler")
            else:
                mon.ok(t.body == b"Method Not Allowed", "405-body", f"{t.body!r}")
            continue
        label, h = target
        mon.n("handlers run")
        if low in EXTRA:
            mon.n("custom methods")
        if not mon.eq(names, [label], "handler", f"{method} with handlers {sorted(resolved)}"):
            continue
        rec = [x for x in mine if x[1] == label][0]
        o = h["out"]
        if h["kind"] in ("sync", "partial-sync"):
            mon.ok(rec[3] != loop_thread[0], "thread", f"sync handler {label} ran in the event loop's thread")
        else:
            mon.ok(rec[3] == loop_thread[0], "thread", f"async handler {label} ran outside the event loop's thread")
        text = f"{label}|{tok}|{method}"
        if o == "body" and h["kind"] not in ("sync", "partial-sync"):
            mon.n("bodies")
            text += "|" + body.decode()
        if o == "boom":
            mon.n("exceptions")
            mon.ok(isinstance(t.exc, Boom) and str(t.exc) == text, "exception", f"{method}: {t.exc!r} instead of the handler's exception")
            continue
        if o == "http-exc":
            mon.n("exceptions")
            if not in_app and place != "exc-mw" and place == "alone":
                mon.ok(isinstance(t.exc, HTTPException) and t.exc.status_code == 418 and t.exc.detail == text, "exception", f"{t.exc!r}")
            elif t.exc is None:
                mon.ok(t.status == 418 and t.body.decode() == text, "exception", f"{t.status} {t.body!r}")
            else:
                mon.ok(not in_app and isinstance(t.exc, HTTPException) and t.exc.detail == text, "exception", f"{t.exc!r}")
            continue
        if not mon.ok(t.exc is None and t.complete, "response", f"{method}: {t.status} {t.exc!r}"):
            continue
        mon.eq(t.body.decode(), text, "body", f"body of the response to {method}")
        mon.eq(t.status, 405 if o == "status" else 200, "status", f"{method}")
        if o == "status":
            mon.ok(t.header("x-own") == "1" and t.header("allow") is None, "own-405", "a handler's own 405 was changed")
        mon.eq([x[1] for x in mine].count("BG"), 1 if o == "background" else 0, "background", f"{method}")
        if o == "background":
            mon.n("background tasks")
