from __future__ import annotations

import asyncio
import gc
import os
import time
import zlib

import anyio
import anyio.to_thread

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, SimpleUser
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.responses import FileResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.staticfiles import StaticFiles

from vp import gens, tracking
from vp.asgi import Trace, http_protocol, http_scope, run_async, snap, ws_scope

ID = "C48"
PROP = dict(
    title="Cancelling a request at any point ends it, and harms nothing else",
    statement=(
        "When the server cancels the handling of a request or WebSocket - at any step, whatever is running: middleware, an async or threaded endpoint, an upload being read, a streaming, file or static response, a background task - the application ends with that cancellation and with no other exception, "
        "sends no error page, and never marks a response as complete that was cut short: what reached the server is a beginning of the response it would have got. No task, open file or threadpool token is left behind, a background task does not start before its response is complete, "
        "and every other request, served at the same time or afterwards by the same application, is answered as if nothing had happened."
    ),
    over=["fault_sequences", "schedules", "programs"],
    quant="every step at which the cancellation can arrive (swept exhaustively per composition), both ways of cancelling (task and cancel scope), asyncio and trio, every endpoint kind and middleware stack",
    why="the tests never cancel a request; servers do so on shutdown, timeouts and lost connections",
    files=["starlette/middleware/base.py", "starlette/responses.py", "starlette/concurrency.py", "starlette/_utils.py", "starlette/_exception_handler.py", "starlette/middleware/errors.py", "starlette/requests.py", "starlette/formparsers.py", "starlette/background.py", "starlette/endpoints.py", "starlette/websockets.py"],
    mechanism=[("BaseHTTPMiddleware's task group", "starlette/middleware/base.py:BaseHTTPMiddleware.__call__"), ("StreamingResponse's task group", "starlette/responses.py:StreamingResponse.__call__"), ("threads", "starlette/concurrency.py:run_in_threadpool"), ("uploads", "starlette/formparsers.py:MultiPartParser.parse")],
)
TECH = "runtime monitoring with fault injection: a cancellation is injected at every successive step of a request (as a crash point), and outcome, message log, tasks, descriptors, temporary files and threadpool tokens are compared with the uncancelled run"
RULE = "each case is an application, an endpoint kind and a way to cancel, swept over every step until the request completes before it is cancelled; non-trivial when at least one cancellation arrived while the request was running"
LEVEL_NOTE = "held on every cancellation point of the generated compositions; steps are those of the harness' event loop schedule"
BUDGET = {"quick": (20000, 14), "thorough": (300000, 240)}
REQUIRED = ("cancellations", "scope cancellations", "native cancellations", "cut responses", "completed in spite", "uploads", "threads", "files", "websockets", "background", "siblings compared", "requests afterwards")

KINDS = ["plain", "stream", "syncstream", "sync", "class", "file", "static", "body", "form", "form-plain", "bg", "bg-sync", "exc", "handled", "raise-late", "forever", "ws", "ws-class", "call-next-body", "sync-dep"]
MWS = ["base", "base", "gzip", "session", "cors", "auth", "pure", "base-body", "base-short-after", "base-bg"]
BOUNDARY = "bnd"


class Boom(Exception):
    pass


def fixed(tier):
    out = []
    i = 0
    for k in KINDS:
        for mws in ([], ["base"], ["base", "base"], ["gzip"], ["base", "gzip", "session"], ["pure", "base-body"], ["auth", "cors", "base-bg"]):
            for mode in ("scope", "native", "scope-trio"):
                i += 1
                out.append(dict(kind=k, mws=mws, mode=mode, at=["tick", "spin", "send", "recv"][i % 2], seed=i, sibling=i % 4 == 0, spec=["2.3", "2.4"][i % 2], size=[600, 200000][i % 5 == 0], limit=25))
    return out


def gen(rng, tier):
    return dict(kind=rng.choice(KINDS), mws=[rng.choice(MWS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], mode=rng.choice(["scope", "native", "native", "scope-trio"]), at=rng.choice(["spin", "spin", "tick", "send", "recv"]), seed=rng.randrange(10**6), sibling=rng.random() < 0.4, spec=rng.choice(["2.0", "2.3", "2.4", "3.0"]), size=rng.choice([0, 10, 600, 5000, 70000, 200000]), limit=rng.choice([10, 25, 60]))


DIR = {}


def worker_setup(mon):
    os.makedirs("cx", exist_ok=True)
    DIR["d"] = os.path.abspath("cx")
    for n in (0, 10, 600, 5000, 70000, 200000):
        with open(f"cx/f{n}.txt", "wb") as f:
            f.write(bytes(i % 251 for i in range(n)))


def served_files():
    """Open descriptors of the files that are served."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(DIR["d"]):
            out.append(p)
    return out


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        await anyio.sleep(0)
        return AuthCredentials(["authenticated"]), SimpleUser("u")


class Pure:
    def __init__(self, app):
        self.app = app

    async def __call__(self, scope, receive, send):
        await self.app(scope, receive, send)


class Ctl:
    """Where the next cancellation is to be delivered."""

    def __init__(self, at, n):
        self.at, self.left = at, n
        self.cancel = None
        self.hit = False

    async def step(self, what):
        if self.at == what or self.at == "tick":
            if self.left == 0 and not self.hit and self.cancel is not None:
                self.hit = True
                self.cancel()
            self.left -= 1
        await anyio.lowlevel.checkpoint()


def build(case, log):
    size = case["size"]

    async def tick(request_or_scope):
        scope = getattr(request_or_scope, "scope", request_or_scope)
        await scope["ctl"].step("tick")

    def chunks():
        return [b"%d." % i + b"x" * (size // 4) for i in range(4)]

    def bg(sync=False):
        if sync:

            def task(scope):
                log.append(("bg", scope["id"]))
                time.sleep(0.0003)

        else:

            async def task(scope):
                log.append(("bg", scope["id"]))
                await tick(scope)
                await tick(scope)
                log.append(("bg-end", scope["id"]))

        return task

    async def plain(request):
        await tick(request)
        await tick(request)
        return PlainTextResponse("a" * size)

    def sync(request):
        time.sleep(0.0004)
        return PlainTextResponse("s" * size)

    async def sync_dep(request):
        await tick(request)
        v = await anyio.to_thread.run_sync(lambda: time.sleep(0.0003) or "dep")
        return PlainTextResponse(v * 200)

    async def stream(request):
        async def body():
            try:
                for c in chunks():
                    await tick(request)
                    yield c
            finally:
                log.append(("closed", request.scope["id"]))

        return StreamingResponse(body())

    async def syncstream(request):
        return StreamingResponse(iter(chunks()))

    async def forever(request):
        async def body():
            n = 0
            while True:
                n += 1
                await tick(request)
                yield b"%d " % n

        return StreamingResponse(body())

    async def raise_late(request):
        async def body():
            yield b"first"
            await tick(request)
            raise Boom("late")

        return StreamingResponse(body())

    class Klass(HTTPEndpoint):
        async def get(self, request):
            await tick(request)
            return PlainTextResponse("k" * size)

    async def file(request):
        await tick(request)
        return FileResponse(os.path.join(DIR["d"], f"f{size}.txt"), background=BackgroundTask(bg(), request.scope))

    async def body(request):
        b = await request.body()
        await tick(request)
        return PlainTextResponse(str(len(b)) + "b" * size)

    async def form(request):
        async with request.form() as f:
            await tick(request)
            names = []
            for k, v in f.multi_items():
                names.append(k + "=" + (str(len(await v.read())) if hasattr(v, "read") else v))
            await tick(request)
        return PlainTextResponse(";".join(names))

    async def form_plain(request):
        f = await request.form()
        try:
            await tick(request)
            r = PlainTextResponse(";".join(f.keys()))
        finally:
            with anyio.CancelScope(shield=True):
                await f.close()
        return r

    async def bg_ep(request):
        await tick(request)
        return PlainTextResponse("bg" + "a" * size, background=BackgroundTask(bg(), request.scope))

    async def bg_sync(request):
        async def body():
            for c in chunks():
                await tick(request)
                yield c

        return StreamingResponse(body(), background=BackgroundTask(bg(True), request.scope))

    async def exc(request):
        await tick(request)
        raise HTTPException(418, "tea")

    async def handled(request):
        await tick(request)
        raise KeyError("x")

    async def on_key(request, e):
        await tick(request)
        return PlainTextResponse("handled", 409)

    async def ws(websocket):
        await websocket.accept()
        await tick(websocket)
        async for t in websocket.iter_text():
            await tick(websocket)
            await websocket.send_text("echo " + t)

    class WS(WebSocketEndpoint):
        encoding = "text"

        async def on_connect(self, websocket):
            await tick(websocket)
            await websocket.accept()

        async def on_receive(self, websocket, data):
            await tick(websocket)
            await websocket.send_text("echo " + data)

        async def on_disconnect(self, websocket, code):
            log.append(("ws-disconnect", websocket.scope["id"]))

    async def base(request, call_next):
        await tick(request)
        r = await call_next(request)
        await tick(request)
        r.headers["x-mw"] = "1"
        return r

    async def base_body(request, call_next):
        await request.body()
        await tick(request)
        return await call_next(request)

    async def base_short_after(request, call_next):
        r = await call_next(request)
        async for _ in r.body_iterator:
            await tick(request)
        return PlainTextResponse("replaced")

    async def base_bg(request, call_next):
        r = await call_next(request)
        r.background = BackgroundTask(bg(), request.scope)
        return r

    make = dict(
        base=lambda: Middleware(BaseHTTPMiddleware, dispatch=base),
        gzip=lambda: Middleware(GZipMiddleware, minimum_size=100),
        session=lambda: Middleware(SessionMiddleware, secret_key="k"),
        cors=lambda: Middleware(CORSMiddleware, allow_origins=["*"]),
        auth=lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
        pure=lambda: Middleware(Pure),
    )
    make["base-body"] = lambda: Middleware(BaseHTTPMiddleware, dispatch=base_body)
    make["base-short-after"] = lambda: Middleware(BaseHTTPMiddleware, dispatch=base_short_after)
    make["base-bg"] = lambda: Middleware(BaseHTTPMiddleware, dispatch=base_bg)
    e = {"plain": plain, "sync": sync, "sync-dep": sync_dep, "stream": stream, "syncstream": syncstream, "forever": forever, "raise-late": raise_late, "class": Klass, "file": file, "body": body, "form": form, "form-plain": form_plain, "bg": bg_ep, "bg-sync": bg_sync, "exc": exc, "handled": handled, "call-next-body": body}
    routes = [Route("/" + k, f, methods=None if k == "class" else ["GET", "POST"]) for k, f in e.items()]
    routes += [Mount("/static", StaticFiles(directory=DIR["d"])), WebSocketRoute("/ws", ws), WebSocketRoute("/ws-class", WS)]
    return Starlette(routes=routes, middleware=[make[m]() for m in case["mws"]], exception_handlers={KeyError: on_key})


def request_for(case, rid, ctl):
    k = case["kind"]
    if k in ("ws", "ws-class"):
        s = ws_scope("/" + k, [("host", "h")])
        inbox = [{"type": "websocket.connect"}] + [{"type": "websocket.receive", "text": f"m{i}"} for i in range(3)] + [{"type": "websocket.disconnect", "code": 1001}]
    else:
        hs = [("host", "h"), ("origin", "https://a.org"), ("accept-encoding", "gzip" if case["seed"] % 2 else "identity")]
        body, path, method = b"", "/" + k, "GET"
        if k == "static":
            path = f"/static/f{case['size']}.txt"
        elif k in ("body", "call-next-body"):
            method, body = "POST", b"B" * (case["size"] + 8)
        elif k in ("form", "form-plain"):
            method = "POST"
            hs.append(("content-type", f"multipart/form-data; boundary={BOUNDARY}"))
            body = "".join(f'--{BOUNDARY}\r\nContent-Disposition: form-data; name="n{i}"' + (f'; filename="f{i}"\r\nContent-Type: text/plain' if i % 2 else "") + f"\r\n\r\n{'v' * (20 + i)}\r\n" for i in range(4)).encode() + f"--{BOUNDARY}--\r\n".encode()
        n = max(1, len(body) // 4)
        parts = [body[i : i + n] for i in range(0, len(body), n)] or [b""]
        inbox = [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]
        s = http_scope(method, path, hs, spec_version=case["spec"])
    s["ctl"] = ctl
    s["id"] = rid
    return s, inbox


class Server:
    def __init__(self, inbox, ctl, trace):
        self.inbox, self.ctl, self.t = inbox, ctl, trace
        self.ended = False
        self.late = []
        self.gone = anyio.Event()

    async def receive(self):
        await self.ctl.step("recv")
        if not self.inbox:
            await self.gone.wait()
            return {"type": "http.disconnect"}
        m = self.inbox.pop(0)
        return m

    async def send(self, m):
        await self.ctl.step("send")
        if self.ended:
            self.late.append(m)
        self.t.events.append(("send", snap(m)))
        if m["type"] == "http.response.body" and not m.get("more_body", False):
            self.gone.set()
        await anyio.lowlevel.checkpoint()


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        return set().union(*map(leaves, exc.exceptions))
    return {type(exc)}


def content(t):
    """The body, decompressed: a gzip header holds the time."""
    if t.start is not None and t.header("content-encoding") == "gzip":
        return zlib.decompressobj(31).decompress(t.body)
    return t.body


async def settle():
    for _ in range(10):
        await anyio.sleep(0)


async def one(app, case, rid, at, n, mode):
    """-> (trace, outcome, server) where outcome is 'returned', 'cancelled' or an exception; t.cancelled says
    whether the cancellation was requested while the application was running."""
    ctl = Ctl(at, n)
    t = Trace()
    scope, inbox = request_for(case, rid, ctl)
    srv = Server(inbox, ctl, t)
    t.requested = False
    done = {"v": None}
    if mode == "native":

        async def body():
            try:
                await app(scope, srv.receive, srv.send)
                done["v"] = "returned"
            finally:
                srv.ended = True

        task = asyncio.get_running_loop().create_task(body())

        def cancel():
            if not task.done():
                t.requested = True
                task.cancel()

        if at is not None:
            ctl.cancel = cancel
        if at == "spin":
            for _ in range(n):
                await anyio.sleep(0)
            cancel()
        await asyncio.wait([task])
        if task.cancelled():
            out = "cancelled"
        elif task.exception() is not None:
            out = task.exception()
            if not isinstance(out, Exception):
                raise out
        else:
            out = "returned"
    else:
        cs = anyio.CancelScope()
        res = {}

        async def body():
            try:
                with cs:
                    try:
                        await app(scope, srv.receive, srv.send)
                        res["out"] = "returned"
                    except Exception as exc:
                        res["out"] = exc
                    finally:
                        srv.ended = True
            except ExceptionGroup as exc:  # what is left of a group when the cancellation is taken out
                res["out"] = exc

        def cancel():
            if not srv.ended:
                t.requested = True
                cs.cancel()

        if at is not None:
            ctl.cancel = cancel
        async with anyio.create_task_group() as tg:
            tg.start_soon(body)
            if at == "spin":
                for _ in range(n):
                    await anyio.sleep(0)
                cancel()
        out = res.get("out", "cancelled")
        if cs.cancelled_caught and "out" in res:
            out = "cancelled"
    await settle()
    t.srv = srv
    return t, out


def run(case, mon):
    mode = case["mode"]
    backend = "trio" if mode == "scope-trio" else "asyncio"
    native = mode == "native"
    kind = case["kind"]
    if kind == "forever" and case["at"] in ("recv", "send") and case["mws"]:
        case = dict(case, at="tick")  # it may never receive, and behind middleware little or nothing is ever sent
    if kind == "forever" and case["at"] == "recv":
        case = dict(case, at="tick")
    log = []
    app = build(case, log)
    tracking.reset()
    ws = kind in ("ws", "ws-class")

    # the uncancelled run, for comparison
    state = {}

    async def plain_run():
        if kind == "forever":
            state["ref"] = None
            return
        state["ref"] = await one(app, case, "ref", None, 0, "native" if native else "scope")

    run_async(backend, case["seed"], plain_run)
    ref = state["ref"]

    def flat(t):
        return [m for m in t.sent]

    if ref is not None:
        rt, rout = ref
        want_exc = kind == "raise-late"
        if want_exc:
            mon.ok(isinstance(rout, Boom), "reference", f"the uncancelled request ended with {rout!r}")
        else:
            mon.ok(rout == "returned", "reference", f"the uncancelled request ended with {rout!r}")
        rmsgs = flat(rt)
        rbody = content(rt)
    arrived = 0
    for n in range(case["limit"]):
        log.clear()
        out = {}

        async def main():
            limiter = anyio.to_thread.current_default_thread_limiter()

            async def sib():
                out["sib"] = await one(app, dict(case, kind="plain" if kind in ("forever", "ws", "ws-class") else kind), "sib", None, 0, "scope")

            async def main_req():
                out["main"] = await one(app, case, "main", case["at"], n, "native" if native else "scope")

            async with anyio.create_task_group() as tg:
                if case["sibling"]:
                    tg.start_soon(sib)
                tg.start_soon(main_req)
            for _ in range(200):
                if not limiter.borrowed_tokens:
                    break
                await anyio.sleep(0.001)
            out["tokens"] = limiter.borrowed_tokens
            await settle()
            if not native and backend == "asyncio" or native:
                for _ in range(20):
                    await asyncio.sleep(0)
                    out["tasks"] = [x for x in asyncio.all_tasks() if x is not asyncio.current_task() and not x.done()]
                    if not out["tasks"]:
                        break
            out["late"] = list(out["main"][0].srv.late)
            out["bg"] = [x for x in log]
            out["after"] = await one(app, dict(case, kind="plain"), "after", None, 0, "scope")

        _, errors = run_async(backend, case["seed"], main)
        t, res = out["main"]
        what = f"{kind} behind {case['mws']}, cancelled ({mode}) at {case['at']} {n}"
        requested = t.requested
        if requested:
            arrived += 1
            mon.n("cancellations")
            mon.n("native cancellations" if native else "scope cancellations")
            if kind in ("body", "form", "form-plain", "call-next-body"):
                mon.n("uploads")
            if kind in ("sync", "syncstream", "sync-dep", "bg-sync"):
                mon.n("threads")
            if kind in ("file", "static"):
                mon.n("files")
            if ws:
                mon.n("websockets")
        for ctx in errors:
            mon.fail("loop-error", f"{what}: {ctx.get('message')} {ctx.get('exception')!r}")
        # outcome
        if requested:
            if res == "cancelled":
                pass
            elif res == "returned":
                # nothing was left to wait for when it was cancelled (or the end of a task group took the cancellation for its own)
                mon.n("completed in spite")
                mon.ok(flat(t) == rmsgs if ws else t.complete, "swallowed", f"{what}: the application returned, with {[m['type'] for m in t.sent]} sent")
            elif leaves(res) == {Boom} and kind == "raise-late":
                mon.n("completed in spite")
            else:
                mon.fail("outcome", f"{what}: the application ended with {res!r} instead of the cancellation")
        else:
            mon.n("completed in spite")
            if kind == "raise-late":
                mon.ok(isinstance(res, Boom), "outcome", f"{what}, after it had ended: {res!r}")
            elif kind != "forever":
                mon.ok(res == "returned", "outcome", f"{what}, after it had ended: {res!r}")
        # messages
        if not ws:
            http_protocol(t, mon, expect_complete=False, check_length=False)
            if ref is not None and t.start is not None:
                strip = lambda m: (m["type"], m.get("status"), sorted((k, v) for k, v in m.get("headers") or [] if k not in (b"set-cookie",)))  # noqa: E731
                mon.eq(strip(t.start), strip(rt.start), "start", what)
                mon.ok(rbody.startswith(content(t)), "prefix", f"{what}: {len(t.body)} bytes sent that the response does not begin with")
                if t.complete:
                    mon.eq(len(content(t)), len(rbody), "false-completion", f"{what}: the body was marked as complete")
                elif requested:
                    mon.n("cut responses")
            if kind == "forever":
                mon.ok(not t.complete, "false-completion", what)
        else:
            got = flat(t)
            mon.ok(got == rmsgs[: len(got)], "prefix", f"{what}: sent {got} instead of a beginning of {rmsgs}")
        # background tasks
        began = [x for x in out["bg"] if x == ("bg", "main")]
        if began:
            mon.n("background")
        if began and not any(m.startswith("base") for m in case["mws"]):
            # (BaseHTTPMiddleware relays the end of a response while its background task may start already: C06)
            mon.ok(t.complete, "background-early", f"{what}: a background task started although the response was not complete")
        # leftovers
        mon.eq(out["late"], [], "late-send", f"{what}: sent after the application had ended")
        mon.ok(not out.get("tasks"), "leaked-task", f"{what}: {out.get('tasks')} still running")
        mon.eq(out["tokens"], 0, "threadpool-token", f"{what}: tokens of the threadpool still taken")
        still = tracking.still_open()
        mon.ok(not still, "open-temporary-file", f"{what}: {len(still)} temporary files of the upload are still open")
        tracking.reset()
        if kind in ("file", "static") and not native:
            # (a native cancellation makes anyio.to_thread drop what its thread returns, an open file here)
            # a thread that was opening the file may just be finishing
            for i in range(400):
                if not served_files():
                    break
                gc.collect()
                time.sleep(0.005)
            else:
                mon.fail("open-file", f"{what}: still open: {served_files()}")
        # others
        if case["sibling"]:
            mon.n("siblings compared")
            st, sres = out["sib"]
            if kind == "raise-late":
                mon.ok(isinstance(sres, Boom), "sibling", f"{what}: the request served at the same time ended with {sres!r}")
            else:
                mon.ok(sres == "returned" and st.complete, "sibling", f"{what}: the request served at the same time ended with {sres!r}")
            if ref is not None and not ws:
                mon.eq((st.status, content(st)), (rt.status, rbody), "sibling", f"{what}: the request served at the same time")
        mon.n("requests afterwards")
        at, ares = out["after"]
        mon.ok(ares == "returned" and at.status == 200 and at.complete, "afterwards", f"{what}: the next request ended with {ares!r}, {at.status}")
        if not requested:
            break
    if arrived:
        mon.nontrivial(kind, case["mws"], mode, case["at"], arrived)
