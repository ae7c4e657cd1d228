from __future__ import annotations

import builtins
import errno
import gc
import io
import os
import tempfile
import threading
import time

import anyio
import anyio.to_thread

from starlette.background import BackgroundTask
from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser
from starlette.endpoints import WebSocketEndpoint
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.requests import ClientDisconnect
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocketDisconnect

from vp import tracking
from vp.asgi import Trace, http_protocol, http_scope, run_async, snap
from vp.props import c48_cancel as lib

ID = "C54"
PROP = dict(
    title="A failure at any step surfaces as itself, once, and harms nothing else",
    statement=(
        "When anything a request or WebSocket depends on fails - the server's send or receive, the disk under a served file or an upload, the code of an endpoint (async or in a thread), a middleware, an authentication backend, a generator, a WSGI application, an exception handler or a background task - at any step, and whatever is around it, the very exception that was raised is what the code waiting for it sees and, unless that handles it, what reaches the server: "
        "no other one, no group of several, never silence (except that a send failing with OSError is a client that has gone: a ClientDisconnect under ASGI 2.4 for streamed responses, and a WebSocketDisconnect once a WebSocket was accepted). Nothing is sent any more after a send that failed, a response that was cut short is never marked complete, what was sent is a beginning of the response that it would have been, and a response that had not begun becomes exactly one 500 page. "
        "No task, thread, threadpool token, file or temporary file is left behind, and every other request, served at the same time or afterwards, is answered as if nothing had happened."
    ),
    over=["fault_sequences", "schedules", "programs"],
    quant="every step at which a failure can happen (swept exhaustively per composition), every place, ordinary exceptions and operating system errors, every endpoint kind and middleware stack, asyncio and trio",
    why="tests make a handful of endpoints raise; what fails in production is the network and the disk, at any moment",
    files=["starlette/middleware/base.py", "starlette/responses.py", "starlette/_utils.py", "starlette/_exception_handler.py", "starlette/middleware/errors.py", "starlette/requests.py", "starlette/formparsers.py", "starlette/background.py", "starlette/endpoints.py", "starlette/websockets.py", "starlette/staticfiles.py", "starlette/middleware/wsgi.py", "starlette/middleware/gzip.py", "starlette/concurrency.py"],
    mechanism=[("BaseHTTPMiddleware's task groups", "starlette/middleware/base.py:BaseHTTPMiddleware.__call__"), ("StreamingResponse's task group", "starlette/responses.py:StreamingResponse.__call__"), ("wrap_app_handling_exceptions", "starlette/_exception_handler.py:wrap_app_handling_exceptions"), ("error pages", "starlette/middleware/errors.py:ServerErrorMiddleware.__call__"), ("uploads", "starlette/formparsers.py:MultiPartParser.parse")],
)
TECH = "runtime monitoring with fault injection: an exception is injected at every successive call of send or receive, step of the application's code, or operation on its files, and what the application sees, the server gets, is sent and is left over is compared with the faultless run"
RULE = "each case is an application, an endpoint kind and a place and kind of failure, swept over every step until the request completes before the fault; non-trivial when at least one fault was injected while the request was running"
LEVEL_NOTE = "held on every fault point of the generated compositions; steps are those of the harness' event loop schedule"
BUDGET = {"quick": (20000, 14), "thorough": (300000, 240)}
REQUIRED = ("faults", "send faults", "receive faults", "code faults", "disk faults", "error pages", "cut responses", "faults seen by the application", "uploads", "threads", "files", "websockets", "background", "siblings compared", "requests afterwards")

KINDS = lib.KINDS + ["body-catch", "stream-catch", "form-catch", "ws-catch", "ws-greedy", "sync-raise", "syncgen", "bg-thread", "wsgi", "two-bg", "push"]
KINDS = [k for k in KINDS if k not in ("call-next-body", "forever")]
MWS = lib.MWS + ["base-catch", "base-stream", "exc-handler"]
PLACES = ["send", "recv", "code", "disk"]
EXCS = ["fault", "oserror", "value", "reset", "pipe", "key"]


class Fault(Exception):
    pass


def make_exc(kind):
    return {
        "fault": lambda: Fault("injected"), "oserror": lambda: OSError(errno.EIO, "injected"), "value": lambda: ValueError("injected"), "reset": lambda: ConnectionResetError("injected"),
        "pipe": lambda: BrokenPipeError("injected"), "key": lambda: KeyError("injected"),
    }[kind]()


DISKY = ("file", "static", "form", "form-plain", "form-catch", "bg")
CODELESS = ("plain",)


def fixed(tier):
    out = []
    i = 0
    for k in KINDS:
        for mws in ([], ["base"], ["base", "base"], ["gzip"], ["base", "gzip", "session"], ["pure", "base-body"], ["auth", "cors", "base-bg"], ["base-catch", "base"]):
            for place in PLACES:
                if place == "disk" and k not in DISKY:
                    continue
                i += 1
                out.append(dict(kind=k, mws=mws, place=place, exc=EXCS[i % len(EXCS)], backend=["asyncio", "trio", "asyncio"][i % 3], seed=i, sibling=i % 4 == 0, spec=["2.3", "2.4"][i % 2], size=[600, 200000][i % 5 == 0], limit=25))
    return out


def gen(rng, tier):
    place = rng.choice(PLACES)
    return dict(kind=rng.choice(KINDS if place != "disk" else DISKY), mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], place=place, exc=rng.choice(EXCS), backend=rng.choice(["asyncio", "trio"]), seed=rng.randrange(10**6), sibling=rng.random() < 0.4, spec=rng.choice(["2.0", "2.3", "2.4", "3.0"]), size=rng.choice([0, 10, 600, 5000, 70000, 200000]), limit=rng.choice([10, 25, 60]))


# ------------------------------------------------------------------------------------ a disk that fails
DISK = {"ctl": None, "dir": None}


def disk_step(what):
    ctl = DISK["ctl"]
    if ctl is not None:
        ctl.now("disk", what)


class FaultyReader(io.BufferedReader):
    def read(self, *a):
        disk_step("read")
        return super().read(*a)

    def read1(self, *a):
        disk_step("read")
        return super().read1(*a)

    def readinto(self, b):
        disk_step("read")
        return super().readinto(b)

    def seek(self, *a):
        disk_step("seek")
        return super().seek(*a)


def ours(path):
    try:
        return DISK["dir"] is not None and DISK["ctl"] is not None and os.fspath(path).startswith(DISK["dir"])
    except TypeError:
        return False


def worker_setup(mon):
    lib.worker_setup(mon)
    DISK["dir"] = lib.DIR["d"]
    if getattr(builtins.open, "vp", None):
        return
    real_open, real_stat = builtins.open, os.stat

    def faulty_open(file, mode="r", *a, **k):
        if not isinstance(file, int) and mode == "rb" and ours(file):
            disk_step("open")
            return FaultyReader(io.FileIO(file, "rb"))
        return real_open(file, mode, *a, **k)

    def faulty_stat(path, *a, **k):
        if not isinstance(path, int) and ours(path):
            disk_step("stat")
        return real_stat(path, *a, **k)

    faulty_open.vp = True
    builtins.open = io.open = faulty_open
    os.stat = faulty_stat
    cls = tempfile.SpooledTemporaryFile
    for name in ("write", "read", "seek"):

        def patched(self, *a, _real=getattr(cls, name), _name=name):
            disk_step("upload " + _name)
            return _real(self, *a)

        setattr(cls, name, patched)


class Ctl:
    """Where the next fault is to happen: the n-th step of a place."""

    def __init__(self, place, n, exc):
        self.place, self.left, self.exc = place, n, exc
        self.hit = False
        self.steps = 0

    def now(self, place, what=""):
        if self.place == place and not self.hit:
            self.steps += 1
            if self.left == 0:
                self.hit = True
                self.what = what
                raise self.exc
            self.left -= 1

    async def step(self, what):
        # (the application's steps, named by the library this was taken from)
        await anyio.lowlevel.checkpoint()
        self.now("code")

    def sync_step(self):
        time.sleep(0.0002)
        self.now("code")


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        await conn.scope["ctl"].step("tick")
        return AuthCredentials(["authenticated"]), SimpleUser("u")


# ------------------------------------------------------------------------------------ applications
def build(case, log):
    size = case["size"]
    seen = []

    async def body_catch(request):
        try:
            b = await request.body()
        except Exception as exc:
            seen.append(exc)
            return PlainTextResponse("caught", 400)
        return PlainTextResponse(str(len(b)))

    async def stream_catch(request):
        n = 0
        try:
            async for c in request.stream():
                n += len(c)
                await request.scope["ctl"].step("tick")
        except Exception as exc:
            seen.append(exc)
            return PlainTextResponse("caught", 400)
        return PlainTextResponse(str(n))

    async def form_catch(request):
        try:
            async with request.form() as f:
                v = [(k, x if isinstance(x, str) else await x.read()) for k, x in f.multi_items()]
        except Exception as exc:
            seen.append(exc)
            return PlainTextResponse("caught", 400)
        return PlainTextResponse(str(len(v)))

    async def ws_catch(websocket):
        try:
            await websocket.accept()
            for _ in range(3):
                await websocket.send_text("echo " + await websocket.receive_text())
        except Exception as exc:
            seen.append(exc)
            return
        await websocket.close()

    class Greedy(WebSocketEndpoint):
        # takes what is left of the conversation, up to its end, by itself
        async def on_receive(self, websocket, data):
            while (await websocket.receive())["type"] != "websocket.disconnect":
                await websocket.scope["ctl"].step("tick")
            await websocket.scope["ctl"].step("tick")
            raise lib.Boom("late")

    def sync_raise(request):
        request.scope["ctl"].sync_step()
        request.scope["ctl"].sync_step()
        return PlainTextResponse("s" * size)

    async def syncgen(request):
        def body():
            for i in range(4):
                request.scope["ctl"].sync_step()
                yield b"%d" % i + b"x" * (size // 4)

        return StreamingResponse(body())

    async def bg_thread(request):
        def task():
            log.append(("bg", request.scope["id"]))
            request.scope["ctl"].sync_step()

        return PlainTextResponse("bgt", background=BackgroundTask(task))

    async def two_bg(request):
        from starlette.background import BackgroundTasks

        async def task(i):
            log.append(("bg", request.scope["id"]))
            await request.scope["ctl"].step("tick")
            log.append(("bg-end", request.scope["id"]))

        tasks = BackgroundTasks()
        for i in range(3):
            tasks.add_task(task, i)

        async def body():
            for i in range(3):
                await request.scope["ctl"].step("tick")
                yield b"%d" % i

        return StreamingResponse(body(), background=tasks)

    async def push(request):
        await request.send_push_promise("/pushed")
        await request.scope["ctl"].step("tick")
        return PlainTextResponse("pushed")

    def wsgi(environ, start_response):
        ctl = CTLS[environ["HTTP_X_ID"]]
        n = len(environ["wsgi.input"].read())
        ctl.sync_step()
        start_response("200 OK", [("Content-Type", "text/plain")])
        for i in range(3):
            ctl.sync_step()
            yield b"%d " % (n + i)

    async def base_catch(request, call_next):
        try:
            return await call_next(request)
        except (Fault, OSError, ValueError) as exc:
            seen.append(exc)
            raise

    async def base_stream(request, call_next):
        async for _ in request.stream():
            await request.scope["ctl"].step("tick")
        return await call_next(request)

    async def exc_handler(request, call_next):
        r = await call_next(request)
        await request.scope["ctl"].step("tick")
        return r

    extra = {"base-catch": base_catch, "base-stream": base_stream, "exc-handler": exc_handler}
    app = lib.build(dict(case, mws=["base" if m in extra else m for m in case["mws"]]), log)
    for i, m in enumerate(case["mws"]):
        if m in extra:
            app.user_middleware[i].kwargs["dispatch"] = extra[m]
        elif m == "auth":
            app.user_middleware[i].kwargs["backend"] = Backend()
    e = {"body-catch": body_catch, "stream-catch": stream_catch, "form-catch": form_catch, "sync-raise": sync_raise, "syncgen": syncgen, "bg-thread": bg_thread, "two-bg": two_bg, "push": push}
    app.router.routes += [Route("/" + k, f, methods=["GET", "POST"]) for k, f in e.items()] + [WebSocketRoute("/ws-catch", ws_catch), WebSocketRoute("/ws-greedy", Greedy), Mount("/wsgi", WSGIMiddleware(wsgi))]
    return app, seen


CTLS = {}


def request_for(case, rid, ctl):
    k = case["kind"]
    as_kind = {"body-catch": "body", "stream-catch": "body", "form-catch": "form", "ws-catch": "ws", "ws-greedy": "ws", "wsgi": "body"}.get(k, k)
    s, inbox = lib.request_for(dict(case, kind=as_kind), rid, ctl)
    if as_kind != k:
        s["path"] = "/" + k
        s["raw_path"] = s["path"].encode()
    if k == "push":
        s["extensions"] = {"http.response.push": {}}
    if s["type"] == "http":
        s["headers"] = s["headers"] + [(b"x-id", rid.encode())]
    CTLS[rid] = ctl
    return s, inbox


class Server:
    def __init__(self, inbox, ctl, trace):
        self.inbox, self.ctl, self.t = inbox, ctl, trace
        self.failed = False
        self.attempts = 0
        self.after = []
        self.ended = False
        self.gone = anyio.Event()

    async def receive(self):
        if not self.inbox:
            # (nothing that could fail but at once: the end of the response is what is waited for)
            self.ctl.now("recv")
            await self.gone.wait()
            return {"type": "http.disconnect"}
        await anyio.lowlevel.checkpoint()
        self.ctl.now("recv")
        return self.inbox.pop(0)

    async def send(self, m):
        if self.failed or self.ended:
            self.after.append(m["type"])
        self.attempts += 1
        await anyio.lowlevel.checkpoint()
        try:
            self.ctl.now("send")
        except BaseException:
            self.failed = m["type"] != "http.response.push"
            raise
        self.t.events.append(("send", snap(m)))
        if m["type"] == "http.response.body" and not m.get("more_body", False):
            self.gone.set()
        await anyio.lowlevel.checkpoint()


async def one(app, case, rid, place, n, exc):
    ctl = Ctl(place, n, exc)
    t = Trace()
    scope, inbox = request_for(case, rid, ctl)
    srv = Server(inbox, ctl, t)
    if place == "disk":
        DISK["ctl"] = ctl
    try:
        await app(scope, srv.receive, srv.send)
        out = "returned"
    except (anyio.get_cancelled_exc_class(), KeyboardInterrupt, GeneratorExit):
        raise
    except Exception as e:
        out = e
    except BaseException as e:
        from vp.engine import _contains_timeout

        if _contains_timeout(e):
            raise
        out = e
    finally:
        srv.ended = True
        if place == "disk":
            DISK["ctl"] = None
    await lib.settle()
    t.srv, t.ctl = srv, ctl
    return t, out


def run(case, mon):
    kind, place, backend = case["kind"], case["place"], case["backend"]
    if place == "disk" and case["exc"] in ("fault", "value", "key"):
        case = dict(case, exc="oserror")
    ws = kind.startswith("ws") and kind != "wsgi"
    log = []
    app, seen = build(case, log)
    tracking.reset()
    state = {}

    async def plain_run():
        state["ref"] = await one(app, case, "ref", None, 0, None)

    run_async(backend, case["seed"], plain_run)
    rt, rout = state["ref"]
    if kind in ("raise-late", "ws-greedy"):
        mon.ok(isinstance(rout, lib.Boom), "reference", f"the faultless request ended with {rout!r}")
    else:
        mon.ok(rout == "returned", "reference", f"the faultless request ended with {rout!r}")
    rbody = lib.content(rt) if not ws else b""
    arrived = 0
    for n in range(case["limit"]):
        log.clear()
        seen.clear()
        tracking.reset()
        out = {}
        exc = make_exc(case["exc"])

        async def main():
            limiter = anyio.to_thread.current_default_thread_limiter()

            async def sib():
                out["sib"] = await one(app, dict(case, kind="plain" if ws or place == "disk" else kind), "sib", None, 0, None)

            async def main_req():
                out["main"] = await one(app, case, "main", place, n, exc)

            async with anyio.create_task_group() as tg:
                if case["sibling"]:
                    tg.start_soon(sib)
                tg.start_soon(main_req)
            for _ in range(200):
                if not limiter.borrowed_tokens:
                    break
                await anyio.sleep(0.001)
            out["tokens"] = limiter.borrowed_tokens
            await lib.settle()
            if backend == "asyncio":
                import asyncio

                for _ in range(20):
                    await asyncio.sleep(0)
                    out["tasks"] = [x for x in asyncio.all_tasks() if x is not asyncio.current_task() and not x.done()]
                    if not out["tasks"]:
                        break
            out["bg"] = [x for x in log]
            out["seen"] = list(seen)
            out["after"] = await one(app, dict(case, kind="plain"), "after", None, 0, None)

        _, errors = run_async(backend, case["seed"], main)
        t, res = out["main"]
        hit = t.ctl.hit
        what = f"{kind} behind {case['mws']}, {exc!r} at {place} {n}" + (f" ({t.ctl.what})" if hit and t.ctl.what else "")
        types = [m["type"] for m in t.sent]
        for ctx in errors:
            mon.fail("loop-error", f"{what}: {ctx.get('message')} {ctx.get('exception')!r}")
        if hit:
            arrived += 1
            mon.n("faults")
            mon.n({"send": "send faults", "recv": "receive faults", "code": "code faults", "disk": "disk faults"}[place])
            if kind.startswith(("body", "form", "stream-catch")):
                mon.n("uploads")
            if kind in ("sync", "syncstream", "sync-dep", "bg-sync", "sync-raise", "syncgen", "bg-thread", "wsgi"):
                mon.n("threads")
            if kind in ("file", "static"):
                mon.n("files")
            if ws:
                mon.n("websockets")
        judge(case, mon, what, t, res, exc, hit, out["seen"], types, rt, rbody, ws)
        # background tasks
        began = out["bg"].count(("bg", "main"))
        if began:
            mon.n("background")
            if not any(m.startswith(("base", "exc")) for m in case["mws"]):
                mon.ok(t.complete, "background-early", f"{what}: a background task ran although the response was not complete: {types}")
        if hit and place == "code" and kind == "two-bg" and "base-bg" not in case["mws"]:
            ran = [k for k, who in out["bg"] if who == "main"]
            mon.ok(not any(a == b for a, b in zip(ran, ran[1:])), "background-continued", f"{what}: {out['bg']}")
        # leftovers
        mon.eq(t.srv.after, [], "late-send", f"{what}: sent after that")
        mon.ok(not out.get("tasks"), "leaked-task", f"{what}: {out.get('tasks')} still running")
        mon.eq(out["tokens"], 0, "threadpool-token", f"{what}: tokens of the threadpool still taken")
        still = tracking.still_open()
        mon.ok(not still, "open-temporary-file", f"{what}: {len(still)} temporary files of the upload are still open")
        tracking.reset()
        sibling, after = out.get("sib"), out["after"]
        # the exceptions' tracebacks hold frames, and these files
        out.clear()
        seen.clear()
        t.exc = res = exc = None
        if kind in ("file", "static"):
            for i in range(400):
                if not lib.served_files():
                    break
                gc.collect()
                time.sleep(0.005)
            else:
                mon.fail("open-file", f"{what}: still open: {lib.served_files()}")
        if sibling:
            mon.n("siblings compared")
            st, sres = sibling
            if kind == "raise-late" and place != "disk":
                mon.ok(isinstance(sres, lib.Boom), "sibling", f"{what}: the request served at the same time ended with {sres!r}")
            else:
                mon.ok(sres == "returned" and (ws or st.complete), "sibling", f"{what}: the request served at the same time ended with {sres!r}")
            if not ws and place != "disk":
                mon.eq((st.status, lib.content(st)), (rt.status, rbody), "sibling", f"{what}: the request served at the same time")
        mon.n("requests afterwards")
        at, ares = after
        mon.ok(ares == "returned" and at.status == 200 and at.complete, "afterwards", f"{what}: the next request ended with {ares!r}, {at.status}")
        if not hit:
            break
    if arrived:
        mon.nontrivial(kind, case["mws"], place, case["exc"], backend, arrived)


def judge(case, mon, what, t, res, exc, hit, seen, types, rt, rbody, ws):
    kind, place = case["kind"], case["place"]
    if not hit:
        if kind in ("raise-late", "ws-greedy"):
            mon.ok(isinstance(res, lib.Boom), "outcome", f"{what}, not reached: {res!r}")
        else:
            mon.ok(res == "returned", "outcome", f"{what}, not reached: {res!r}")
        return
    oserror = isinstance(exc, OSError)
    # what the code that waited for it saw
    for e in seen:
        mon.n("faults seen by the application")
        if ws and place == "send" and oserror and t.sent:
            mon.ok(isinstance(e, WebSocketDisconnect), "seen", f"{what}: the application saw {e!r}")
        elif isinstance(e, ClientDisconnect) and place == "send" and oserror:
            pass
        elif kind in ("raise-late", "ws-greedy") and isinstance(e, lib.Boom):
            pass
        elif isinstance(exc, KeyError) and isinstance(e, RuntimeError) and e.__cause__ is exc:
            pass
        else:
            mon.ok(e is exc, "seen", f"{what}: the application saw {e!r}")
    handled = kind in ("body-catch", "stream-catch", "form-catch", "ws-catch") and bool(seen) and res == "returned"
    # what the server got
    if handled:
        if not ws and "base-short-after" not in case["mws"]:
            mon.eq((t.status, lib.content(t), t.complete), (400, b"caught", True), "handled", what)
    elif ws and place == "send" and oserror and t.sent:
        mon.ok(isinstance(res, WebSocketDisconnect) and res.code == 1006, "outcome", f"{what}: the server got {res!r}")
    elif kind in ("raise-late", "ws-greedy") and isinstance(res, BaseExceptionGroup):
        # (two failures at once)
        mon.eq(lib.leaves(res), {type(exc), lib.Boom}, "outcome", f"{what}: the server got {res!r}; sent {types}")
    elif isinstance(exc, KeyError) and res == "returned":
        # (the application has a handler for it)
        mon.n("faults seen by the application")
        if ws:
            # its response takes the place of accepting the WebSocket
            mon.eq(types, ["websocket.close"], "handled", what)
        elif "base-short-after" not in case["mws"]:
            mon.eq((t.status, lib.content(t), t.complete), (409, b"handled", True), "handled", what)
        return
    elif isinstance(exc, KeyError) and res is not exc and (ws or t.srv.attempts):
        mon.ok(type(res) is RuntimeError and res.__cause__ is exc, "outcome", f"{what}: the server got {res!r}; sent {types}")
    elif isinstance(res, ClientDisconnect):
        mon.ok(place == "send" and oserror and case["spec"] not in ("2.0", "2.3"), "outcome", f"{what}: the server got {res!r}")
    else:
        mon.ok(res is exc, "outcome", f"{what}: the server got {res!r}; sent {types}")
    # what was sent
    if ws:
        got = t.sent
        mon.ok(got == rt.sent[: len(got)], "prefix", f"{what}: sent {got} instead of a beginning of {rt.sent}")
        return
    page = t.status == 500 and rt.status != 500
    http_protocol(t, mon, expect_complete=False, check_length=False)
    if handled:
        return
    if page:
        mon.n("error pages")
        mon.ok(not t.srv.failed, "page-after-failed-send", what)
        mon.ok(t.complete and lib.content(t) == b"Internal Server Error", "error-page", f"{what}: {lib.content(t)!r}")
        return
    if t.start is None:
        # (what was handed to a send that failed, or that was cancelled because of the failure, counts)
        mon.ok(t.srv.attempts > 0, "silence", f"{what}: nothing was sent")
        return
    strip = lambda m: (m["type"], m.get("status"), sorted((k, v) for k, v in m.get("headers") or [] if k not in (b"set-cookie",)))  # noqa: E731
    mon.eq(strip(t.start), strip(rt.start), "start", what)
    mon.ok(rbody.startswith(lib.content(t)), "prefix", f"{what}: {len(t.body)} bytes sent that the response does not begin with")
    if t.complete:
        mon.eq(len(lib.content(t)), len(rbody), "false-completion", f"{what}: the body was marked as complete")
        mon.ok(rt.complete, "false-completion", f"{what}: the body was marked as complete")
    else:
        mon.n("cut responses")
