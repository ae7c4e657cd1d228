from __future__ import annotations

import functools
import os
import threading

import anyio

from starlette.applications import Starlette
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Mount, Route

from vp import gens
from vp.asgi import Jit, drive, http_protocol, http_scope, no_leaks

ID = "C06"
PROP = dict(
    title="Background tasks run exactly once, in order, after the response is complete",
    statement=(
        "Whatever response kind carries them (buffered, streaming, file) and whatever middleware wraps the app, background tasks attached to "
        "the response that is sent each run exactly once with exactly the arguments they were given, strictly one after another in the order "
        "they were added (also those added to a response that exists, or by a task that runs), and finish before the application returns. No task starts before the server has accepted the final body "
        "message (unless a BaseHTTPMiddleware relays the response, where only once-and-in-order holds), and tasks of a response that is not sent never run. "
        "Synchronous tasks run off the event-loop thread, and when a task raises, the error propagates, the remaining "
        "tasks are not run and the already completed response is unaffected."
    ),
    over=["inputs", "schedules", "fault_sequences"],
    quant="every response class, list of tasks (sync, async, partial, callable objects), failing task position, middleware stack, injected scheduling and backend",
    why="tests attach one or two tasks to one response; order, multiplicity and the response-first rule are claims over every stack and schedule",
    files=["starlette/background.py", "starlette/responses.py", "starlette/concurrency.py", "starlette/middleware/base.py"],
    mechanism=[("BackgroundTask(s).__call__", "starlette/background.py"), ("background awaited after the last send", "starlette/responses.py")],
)
TECH = "runtime monitoring: event-log checker (exactly-once, order, happens-after-response) over task and server events"
RULE = "each case combines a response class, 1-6 background tasks of mixed callables, an optional failing task and a middleware stack; non-trivial when at least one task ran (or was required not to)"
LEVEL_NOTE = "held on the generated executions; the order of task start/finish events and accepted sends is taken from one log"
BUDGET = {"quick": (80000, 16), "thorough": (1000000, 300)}
REQUIRED = ("tasks run", "failing tasks", "sync tasks", "tasks added late", "relayed through BaseHTTPMiddleware")

RESP = ["Response", "HTML", "Plain", "JSON", "Redirect", "Stream", "Stream", "StreamSync", "File", "FileRange", "FileMulti", "FileHead", "FileMalformed", "FileBeyond"]
MW = ["gzip", "cors", "session", "host", "base", "pure"]


class Boom(Exception):
    pass


def fixed(tier):
    out = []
    for r in RESP:
        for tasks in (["async"], ["sync"], ["async", "sync", "partial", "obj", "sobj", "method"]):
            for single in ((True, False) if len(tasks) == 1 else (False,)):
                for mw in ([], ["gzip"], ["base"], ["base", "base"]):
                    out.append(dict(resp=r, tasks=tasks, single=single, fail=None, mw=mw, jit=1, seed=0, backend="asyncio", spec="2.3", discarded=False, via="route"))
    for late in (-1, 0, 1):
        for r in ("Plain", "Stream", "File"):
            for mw in ([], ["base"]):
                out.append(dict(resp=r, tasks=["async", "sync", "async"], single=False, fail=None, mw=mw, jit=1, seed=0, backend="asyncio", spec="2.3", discarded=False, via="route", late=late))
    for f in range(3):
        for mw in ([], ["base"], ["gzip", "session"]):
            out.append(dict(resp="Plain", tasks=["async", "sync", "async"], single=False, fail=f, mw=mw, jit=1, seed=0, backend="asyncio", spec="2.3", discarded=False, via="route"))
    return out


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3, 6])
    tasks = [rng.choice(["async", "async", "async", "sync", "partial", "obj", "sobj", "method", "spartial"]) for _ in range(n)]
    return dict(
        resp=rng.choice(RESP),
        tasks=tasks,
        single=n == 1 and rng.random() < 0.7,
        fail=rng.choice([None, None, None, rng.randrange(n)]),
        mw=[rng.choice(MW) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
        jit=rng.choice([0, 1, 2]),
        seed=rng.randrange(10**6),
        backend=rng.choice(["asyncio"] * 4 + ["trio"]),
        spec=rng.choice(["2.3", "2.4", "2.0"]),
        discarded=rng.random() < 0.12,
        late=rng.choice([None, None, -1, rng.randrange(n)]),
        via=rng.choice(["route", "route", "handler", "raw", "ctor", "mount"]),
        status=rng.choice([None, None, 200, 201, 204, 299, 304, 400, 404, 418, 500, 503]),
        hs=rng.choice([None, None, {}, {"x-a": "1"}, {"content-type": "text/event-stream"}, {"content-encoding": "gzip"}, {"connection": "close"}, {"set-cookie": "a=b"}]),
        media=rng.choice([None, None, "text/plain", "application/json", "text/event-stream"]),
        head=rng.random() < 0.2,
        chunks=rng.choice([[5, 5, 5, 5, 5], [], [0], [0, 3, 0], [700], [1, 70000], [1] * 20]),
        size=rng.choice([700, 0, 1, 499, 500, 501, 70000]),
        clen=rng.random() < 0.2,
    )


class Pure:
    def __init__(self, app):
        self.app = app

    async def __call__(self, scope, receive, send):
        await self.app(scope, receive, send)


def run(case, mon):
    path = os.path.join(mon.tmp, "bg.bin")
    if not os.path.exists(path):
        with open(path, "wb") as f:
            f.write(bytes(range(256)) * 600)
    log = []
    loop_thread = threading.get_ident()
    jit = Jit(case["seed"] + 7, case["jit"])

    def args_for(i):
        return (i, f"arg{i}", [i]), {"kw": i * 2, "self_": None}

    def check_args(i, a, k):
        want = args_for(i)
        if (a, k) != want:
            mon.fail("task-arguments", f"task {i} was called with {a!r} {k!r} instead of {want!r}")

    # tasks may also be added to those of a response that exists already, or by one of them
    late = case.get("late")
    if case["single"] or late is not None and late >= len(case["tasks"]) - 1:
        late = None
    added = []

    def add_late(i):
        if i == late and added:
            b, specs = added.pop()
            for f, a, k in specs:
                b.add_task(f, *a, **k)
            mon.n("tasks added late")

    def fn(i, kind):
        async def atask(*a, **k):
            log.append(("start", i, threading.get_ident() == loop_thread))
            check_args(i, a, k)
            add_late(i)
            await jit()
            await anyio.sleep(0)
            if case["fail"] == i:
                raise Boom(i)
            log.append(("end", i))

        def stask(*a, **k):
            log.append(("start", i, threading.get_ident() == loop_thread))
            check_args(i, a, k)
            add_late(i)
            if case["fail"] == i:
                raise Boom(i)
            log.append(("end", i))

        if kind == "async":
            return atask
        if kind == "sync":
            return stask
        if kind == "partial":
            return functools.partial(atask, i)
        if kind == "spartial":
            return functools.partial(stask, i)
        if kind == "obj":
            class O:
                async def __call__(self, *a, **k):
                    await atask(*a, **k)

            return O()
        if kind == "sobj":
            class S:
                def __call__(self, *a, **k):
                    stask(*a, **k)

            return S()

        class M:
            async def m(self, *a, **k):
                await atask(*a, **k)

        return M().m

    ntask = len(case["tasks"])

    def background():
        specs = []
        for i, kind in enumerate(case["tasks"]):
            a, k = args_for(i)
            if kind in ("partial", "spartial"):
                a = a[1:]
            specs.append((fn(i, kind), a, k))
        if case["single"]:
            return BackgroundTask(specs[0][0], *specs[0][1], **specs[0][2])
        if late is not None:
            b = BackgroundTasks([BackgroundTask(f, *a, **k) for f, a, k in specs[: late + 1]])
            added.append((b, specs[late + 1 :]))
            return b
        if case["via"] == "ctor":
            return BackgroundTasks(tasks=[BackgroundTask(f, *a, **k) for f, a, k in specs])
        b = BackgroundTasks([BackgroundTask(f, *a, **k) for f, a, k in specs[: ntask // 2]])
        for f, a, k in specs[ntask // 2 :]:
            b.add_task(f, *a, **k)
        return b

    size, chunks = case.get("size", 700), case.get("chunks", [5, 5, 5, 5, 5])
    status, media = case.get("status"), case.get("media")
    method = "HEAD" if case["resp"] == "FileHead" or case.get("head") else "GET"
    nobody = status in (204, 304)

    def build():
        r = make()
        add_late(-1)
        return r

    def make():
        bg = background()
        r = case["resp"]
        kw = {"background": bg}
        if status is not None:
            kw["status_code"] = status
        if case.get("hs") is not None:
            kw["headers"] = dict(case["hs"])
        if r in ("Response", "Stream", "StreamSync", "File", "FileRange", "FileMulti") and media:
            kw["media_type"] = media
        if r.startswith("File") and nobody:
            kw.pop("status_code")
        if r == "Response":
            return Response(b"" if nobody else b"x" * size, **kw)
        if r == "HTML":
            return HTMLResponse("" if nobody else "p" * size, **kw)
        if r == "Plain":
            return PlainTextResponse("" if nobody else "hi", **kw)
        if r == "JSON":
            if nobody:
                kw.pop("status_code")
            return JSONResponse({"a": 1}, **kw)
        if r == "Redirect":
            return RedirectResponse("/x", **kw)
        mine = [] if nobody else chunks
        if r in ("Stream", "StreamSync") and case.get("clen"):
            kw["headers"] = {**kw.get("headers", {}), "content-length": str(sum(mine))}
        if r == "Stream":

            async def g():
                for n in mine:
                    await jit()
                    yield b"c" * n

            return StreamingResponse(g(), **kw)
        if r == "StreamSync":
            return StreamingResponse(iter([b"a" * n for n in mine]), **kw)
        return FileResponse(path, **kw)

    # BaseHTTPMiddleware does not promise an order between app background and the relayed tail
    discarded = case["discarded"]

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    async def endpoint(request):
        r = build()
        if discarded:
            return PlainTextResponse("other")
        if case["via"] == "handler":
            raise HTTPException(418)
        return r

    async def handler(request, exc):
        return build()

    if case["via"] == "raw" and not discarded:
        app = build()
        mw = []
        for m in case["mw"]:
            mw.append(m)
        for m in reversed(mw):
            app = {"gzip": lambda a: GZipMiddleware(a), "cors": lambda a: CORSMiddleware(a, allow_origins=["*"]), "session": lambda a: SessionMiddleware(a, secret_key="k"), "host": lambda a: TrustedHostMiddleware(a), "base": Base, "pure": Pure}[m](app)
    else:
        stack = [{"gzip": Middleware(GZipMiddleware), "cors": Middleware(CORSMiddleware, allow_origins=["*"]), "session": Middleware(SessionMiddleware, secret_key="k"), "host": Middleware(TrustedHostMiddleware), "base": Middleware(Base), "pure": Middleware(Pure)}[m] for m in case["mw"]]
        routes = [Route("/", endpoint, methods=["GET", "HEAD"])]
        if case["via"] == "mount":
            app = Starlette(routes=[Mount("/", routes=routes, middleware=stack)], exception_handlers={418: handler})
        else:
            app = Starlette(routes=routes, middleware=stack, exception_handlers={418: handler})

    headers = [("accept-encoding", "gzip"), ("origin", "http://x")]
    if case["resp"] == "FileRange":
        headers.append(("range", "bytes=5-70000"))
    elif case["resp"] == "FileMulti":
        headers.append(("range", "bytes=5-70,100-2000"))
    elif case["resp"] == "FileMalformed":
        headers.append(("range", "bytes=9-2"))
    elif case["resp"] == "FileBeyond":
        headers.append(("range", "bytes=99999999-"))
    scope = http_scope(method=method, headers=headers, spec_version=case["spec"])

    async def probed(scope, receive, send):
        await app(scope, receive, send)
        log.append(("app-returned",))

    def accepted(m):
        if m["type"] == "http.response.body" and not m.get("more_body", False):
            log.append(("response-complete",))

    t = drive(probed, scope, backend=case["backend"], seed=case["seed"], jitter=case["jit"], on_accept=accepted)
    # (the declared length of a multi-range response is a listed finding of C05)
    http_protocol(t, mon, method=method, expect_complete=True, check_length=case["resp"] != "FileMulti")
    no_leaks(t, mon)
    starts = [e[1] for e in log if e[0] == "start"]
    ends = [e[1] for e in log if e[0] == "end"]
    if not discarded and case["resp"] in ("FileMalformed", "FileBeyond") and status in (None, 200, 204, 304) and t.status in (400, 416):
        # another response than the file's was sent
        discarded = True
    if discarded:
        mon.eq(starts, [], "discarded-ran", "tasks of a response that was never sent that ran")
        mon.nontrivial("discarded")
        return
    fail = case["fail"]
    nrun = ntask if fail is None else fail + 1
    mon.n("tasks run", len(starts))
    mon.eq(starts, list(range(nrun)), "order", "tasks started (in this order)")
    mon.eq(ends, list(range(ntask if fail is None else fail)), "finished", "tasks finished")
    evs = [e for e in log if e[0] in ("start", "end")]
    for a, b in zip(evs, evs[1:]):
        if b[0] == "start" and not (a[0] == "end"):
            mon.fail("overlap", f"task {b[1]} started before task {a[1]} had ended: {evs}")
    names = [e[0] for e in log]
    if names.count("response-complete") != 1:
        mon.fail("incomplete", f"the response was completed {names.count('response-complete')} times")
    elif "base" not in case["mw"]:
        if names.index("response-complete") > names.index("start"):
            mon.fail("before-response", f"a background task started before the response was complete: {log}")
    else:
        mon.n("relayed through BaseHTTPMiddleware")
    if fail is None:
        if t.exc:
            raise t.exc
        mon.eq(names[-1], "app-returned", "returned-early", "last event (the application must outlive its background tasks)")
    else:
        mon.n("failing tasks")
        mon.ok(isinstance(t.exc, Boom), "error-propagates", f"the failing task's error did not propagate: {t.exc!r}")
        mon.ok(t.complete and t.status == (status if status is not None and not (nobody and case["resp"].startswith(("File", "JSON"))) and not (case["resp"] in ("FileRange", "FileMulti") and status == 200) else {"Redirect": 307, "FileRange": 206, "FileMulti": 206}.get(case["resp"], 200)), "response-affected", f"status {t.status}")
    for e in log:
        if e[0] == "start":
            kind = case["tasks"][e[1]]
            if kind in ("sync", "sobj", "spartial"):
                mon.n("sync tasks")
                mon.ok(not e[2], "sync-on-loop", "a synchronous background task ran on the event loop's thread")
            else:
                mon.ok(e[2], "async-off-loop", "an asynchronous background task ran outside the event loop's thread")
    mon.nontrivial(case["resp"], case["tasks"], case["mw"], fail, case["via"])
