from __future__ import annotations

import builtins
import collections.abc
import contextvars
import functools
import io
import os
import random
import threading

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool
from starlette.datastructures import UploadFile
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.responses import FileResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.staticfiles import StaticFiles

from vp import gens, tracking
from vp.asgi import Jit, ServerSide, Trace, call_app, drive, http_scope, run_async
from vp.engine import mk

ID = "C12"
PROP = dict(
    title="Blocking code runs in worker threads and never in the event loop",
    statement=(
        "Every synchronous endpoint, endpoint-class method, guarded endpoint, exception handler, background task, streamed iterator and WSGI application, of whatever callable shape, runs in a worker thread with the caller's context "
        "variables, concurrently with the others, while asynchronous ones run in the event loop's thread; results and exceptions come back unchanged, and iterators are advanced one item at a time, in order. "
        "Disk access while serving files or static directories, and by uploads that no longer fit in memory, likewise never happens in the event loop's thread."
    ),
    over=["inputs", "schedules"],
    quant="every callable shape (function, method, partial, callable object, decorated), site, file, upload operation sequence, concurrency level, asyncio and trio",
    why="a callable run in the wrong place still returns the right answer, so ordinary assertions pass",
    files=["starlette/concurrency.py", "starlette/_utils.py", "starlette/routing.py", "starlette/endpoints.py", "starlette/background.py", "starlette/_exception_handler.py", "starlette/middleware/errors.py", "starlette/responses.py", "starlette/staticfiles.py", "starlette/datastructures.py", "starlette/authentication.py", "starlette/middleware/wsgi.py"],
    mechanism=[("run_in_threadpool / iterate_in_threadpool", "starlette/concurrency.py"), ("is_async_callable", "starlette/_utils.py"), ("UploadFile", "starlette/datastructures.py:UploadFile")],
)
TECH = "runtime monitoring: thread-identity assertions at every call site, plus hooks on stat/open/read and on spooled files that record the thread of each disk operation"
RULE = "each case is a site, a callable shape and an outcome, or a disk workload; non-trivial when at least one execution's thread was compared with the event loop's"
LEVEL_NOTE = "held on the generated call sites and disk workloads"
BUDGET = {"quick": (60000, 12), "thorough": (600000, 150)}
REQUIRED = ("sync callables in threads", "async callables in the loop", "iterators advanced", "disk operations off the loop", "upload disk operations", "concurrent barriers", "context variables seen", "direct calls")

var = contextvars.ContextVar("var", default=None)
SITES = ["endpoint", "endpoint-class", "requires", "handler-exc", "handler-status", "handler-500", "handler-ws", "background", "background2", "stream", "wsgi"]
SHAPES = ["function", "method", "partial", "partial2", "callable", "static", "decorated", "classmethod"]
OPS: list = []  # disk operations (name, thread)
ROOT = [None]


class Tracked(io.BufferedReader):
    def read(self, *a):
        OPS.append(("read", threading.get_ident()))
        return super().read(*a)

    def seek(self, *a):
        OPS.append(("seek", threading.get_ident()))
        return super().seek(*a)


def _mine(path):
    try:
        return ROOT[0] is not None and os.fspath(path).startswith(ROOT[0])
    except TypeError:
        return False


def worker_setup(mon):
    root = os.path.realpath(os.path.join(mon.tmp, "files"))
    os.makedirs(root + "/sub")
    for nm, n in (("a.txt", 10), ("big.bin", 300000), ("index.html", 20), ("404.html", 5), ("sub/index.html", 7)):
        with open(os.path.join(root, nm), "wb") as f:
            f.write(b"z" * n)
    for nm in ("stat", "lstat", "open", "scandir", "readlink", "access"):
        real = getattr(os, nm)

        def hook(path, *a, _real=real, _nm=nm, **k):
            if _mine(path):
                OPS.append((_nm, threading.get_ident()))
            return _real(path, *a, **k)

        setattr(os, nm, hook)
    real_open = builtins.open

    def opener(file, mode="r", *a, **k):
        if _mine(file):
            OPS.append(("open", threading.get_ident()))
            if mode == "rb":
                return Tracked(io.FileIO(file, "rb"))
        return real_open(file, mode, *a, **k)

    builtins.open = io.open = opener
    mon.root = root


def fixed(tier):
    out = []
    for site in SITES:
        for shape in SHAPES:
            for sync in (True, False):
                for be in ("asyncio", "trio"):
                    out.append(dict(kind="site", site=site, shape=shape, sync=sync, raises=False, backend=be, seed=1))
    for be in ("asyncio", "trio"):
        for path in ("/a.txt", "/big.bin", "/", "/sub", "/sub/", "/nope", "/../x", "/%00"):
            for html in (True, False):
                for method in ("GET", "HEAD"):
                    out.append(dict(kind="static", path=path, html=html, method=method, range=None, backend=be, seed=1))
        for rg in ("bytes=0-3", "bytes=0-1,5-9", "bytes=9999999-", "x"):
            out.append(dict(kind="file", path="big.bin", range=rg, method="GET", backend=be, seed=1))
        for n in (1048576, 1048577, 1200000):
            out.append(dict(kind="form", n=n, backend=be, seed=n))
        for k in (2, 5, 20, 30):
            for site in ("endpoint", "background", "stream", "wsgi", "endpoint-class", "run"):
                out.append(dict(kind="barrier", site=site, k=k, backend=be, seed=k))
    return out


def gen(rng, tier):
    r = rng.random()
    base = dict(backend=gens.backend(rng), seed=rng.randrange(10**6))
    if r < 0.45:
        return dict(base, kind="site", site=rng.choice(SITES), shape=rng.choice(SHAPES), sync=rng.random() < 0.6, raises=rng.random() < 0.3)
    if r < 0.6:
        n = rng.choice([0, 1, 2, 5, 30])
        return dict(base, kind="direct", what=rng.choice(["run", "iter", "iter-gen", "iter-raise"]), n=n, at=rng.randrange(0, n + 1))
    if r < 0.75:
        return dict(base, kind="upload", spool=rng.choice([0, 1, 5, 10, 100]), ops=[[rng.choice(["write", "write", "write", "read", "seek", "seek0"]), rng.choice([0, 1, 2, 4, 5, 6, 9, 10, 11, 50])] for _ in range(rng.randrange(1, 12))])
    if r < 0.9:
        return dict(base, kind="static", path=rng.choice(["/a.txt", "/big.bin", "/", "/sub", "/sub/", "/nope", "/a.txt/x", "/" + gens.token(rng)]), html=rng.random() < 0.5, method=rng.choice(["GET", "HEAD"]), range=rng.choice([None, "bytes=0-3", "bytes=1-2,5-6"]))
    if r < 0.97:
        return dict(base, kind="file", path=rng.choice(["a.txt", "big.bin"]), range=rng.choice([None, "bytes=0-", "bytes=1-2,4-5", "bytes=-3"]), method=rng.choice(["GET", "HEAD"]))
    return dict(base, kind="barrier", site=rng.choice(["endpoint", "background", "stream", "wsgi", "run"]), k=rng.randrange(2, 12))


class Boom(Exception):
    pass


def shape_of(fn_sync, fn_async, shape, sync):
    """fn(*args) in the requested callable shape."""
    f = fn_sync if sync else fn_async
    if shape == "function":
        return f
    if shape == "partial":
        return functools.partial(f)
    if shape == "partial2":
        return functools.partial(functools.partial(f))
    if shape == "decorated":
        if sync:

            @functools.wraps(f)
            def wrapper(*a):
                return f(*a)
        else:

            @functools.wraps(f)
            async def wrapper(*a):
                return await f(*a)

        return wrapper
    if sync:

        class C:
            def m(self, *a):
                return f(*a)

            @staticmethod
            def s(*a):
                return f(*a)

            @classmethod
            def c(cls, *a):
                return f(*a)

            __call__ = m
    else:

        class C:
            async def m(self, *a):
                return await f(*a)

            @staticmethod
            async def s(*a):
                return await f(*a)

            @classmethod
            async def c(cls, *a):
                return await f(*a)

            __call__ = m

    return {"method": C().m, "static": C.s, "classmethod": C.c, "callable": C()}[shape]


def run(case, mon):
    ROOT[0] = mon.root
    OPS.clear()
    tracking.reset()
    try:
        globals()["run_" + case["kind"]](case, mon)
    finally:
        ROOT[0] = None


def judge(mon, calls, sync, main, ctx=True):
    for tid, v in calls:
        if sync:
            mon.n("sync callables in threads")
            mon.ok(tid != main, "sync-on-loop", "a synchronous callable ran in the event loop's thread")
        else:
            mon.n("async callables in the loop")
            mon.ok(tid == main, "async-off-loop", "an asynchronous callable did not run in the event loop's thread")
        if ctx:
            mon.n("context variables seen")
            mon.eq(v, "ctx", "context", "the context variable of the caller, inside the callable")


def run_site(case, mon):
    site, sync = case["site"], case["sync"]
    shape = case["shape"]
    if site in ("endpoint", "requires") and shape == "callable":
        shape = "method"  # a callable object is an ASGI application to Route
    calls = []
    main = threading.get_ident()
    resp = PlainTextResponse("ok", status_code=207)

    def body(*a):
        calls.append((threading.get_ident(), var.get()))
        if case["raises"] and site in ("endpoint", "endpoint-class", "requires", "background", "background2"):
            raise Boom("x")
        return resp

    async def abody(*a):
        await anyio.sleep(0)
        return body()

    routes, kw = [], {}
    if site == "requires":

        def sync_ep(request):
            return body()

        async def async_ep(request):
            return await abody()

        fn = requires("authenticated")(sync_ep if sync else async_ep)
    else:
        fn = shape_of(body, abody, shape, sync)
    headers = []
    scope = http_scope()
    n = 1
    want = 207
    if site in ("endpoint", "requires"):
        routes = [Route("/", fn)]
        scope["user"], scope["auth"] = SimpleUser("x"), AuthCredentials(["authenticated"])
    elif site == "endpoint-class":
        if sync:

            class E(HTTPEndpoint):
                def get(self, request):
                    return body()
        else:

            class E(HTTPEndpoint):
                async def get(self, request):
                    return await abody()

        routes = [Route("/", E)]
    elif site.startswith("handler"):
        exc = {"handler-exc": Boom("x"), "handler-status": HTTPException(418), "handler-500": Boom("x"), "handler-ws": Boom("x")}[site]

        async def ep(request):
            raise exc

        async def wsep(ws):
            raise exc

        routes = [Route("/", ep), WebSocketRoute("/", wsep)]
        kw = {"exception_handlers": {{"handler-exc": Boom, "handler-status": 418, "handler-500": 500, "handler-ws": Boom}[site]: fn}}
        if site == "handler-ws":
            from vp.asgi import ws_scope

            scope = ws_scope()
    elif site.startswith("background"):

        async def ep(request):
            task = BackgroundTask(fn) if site == "background" else BackgroundTasks([BackgroundTask(fn, 1), BackgroundTask(fn, 2)])
            return PlainTextResponse("x", status_code=207, background=task)

        n = 1 if site == "background" or case["raises"] else 2
        routes = [Route("/", ep)]
    elif site == "stream":
        n = 4

        if sync and case["seed"] % 3 == 0:

            class it(collections.abc.Sequence):
                # items are computed as they are asked for
                def __len__(self):
                    return 4

                def __getitem__(self, i):
                    if i >= 4:
                        raise IndexError(i)
                    body()
                    return b"x%d" % i

        elif sync and case["seed"] % 3 == 1:

            class it:
                i = -1

                def __iter__(self):
                    return self

                def __next__(self):
                    self.i += 1
                    if self.i >= 4:
                        raise StopIteration
                    body()
                    return b"x%d" % self.i

        elif sync:

            def it():
                for i in range(4):
                    body()
                    yield b"x%d" % i
        else:

            async def it():
                for i in range(4):
                    await abody()
                    yield b"x%d" % i

        async def ep(request):
            return StreamingResponse(it(), status_code=207)

        routes = [Route("/", ep)]
    else:
        sync = True
        n = 1

        def wsgi(environ, start_response):
            body()
            start_response("207 x", [])
            return [b"x"]

        routes = [Mount("/", app=WSGIMiddleware(wsgi))]
    star = Starlette(routes=routes, **kw)

    async def app(scope, receive, send):
        token = var.set("ctx")
        try:
            await star(scope, receive, send)
        finally:
            var.reset(token)

    t = drive(app, scope, backend=case["backend"], seed=case["seed"], jitter=case["seed"] % 2)
    if site == "handler-500":
        mon.ok(isinstance(t.exc, Boom), "server-error", f"{t.exc!r}")
    elif case["raises"] and site in ("endpoint", "endpoint-class", "requires", "background", "background2"):
        mon.ok(isinstance(t.exc, Boom), "exception", f"the callable's exception did not come back: {t.exc!r}")
    elif t.exc:
        raise t.exc
    if scope["type"] == "http" and not (case["raises"] and site in ("endpoint", "endpoint-class", "requires")):
        mon.eq(t.status, want, "result", f"status of the response the callable returned ({site})")
    mon.eq(len(calls), n, "calls", f"executions of the callable ({site})")
    if site == "stream":
        mon.eq(t.body, b"x0x1x2x3", "stream-order", "streamed body")
        mon.n("iterators advanced", 4)
    judge(mon, calls, sync, main)
    mon.nontrivial(site, shape, sync, case["raises"], case["backend"])


def run_direct(case, mon):
    main = threading.get_ident()
    rng = random.Random(case["seed"])
    calls = []
    what, n, at = case["what"], case["n"], case["at"]
    sentinel = object()
    exc = rng.choice([Boom("x"), ValueError("y"), KeyError("z"), LookupError("w")])

    async def go():
        var.set("ctx")
        mon.n("direct calls")
        if what == "run":

            def fn(*a, **k):
                calls.append((threading.get_ident(), var.get()))
                if n % 2:
                    raise exc
                return (sentinel, a, k)

            args, kw = tuple(range(n)), {"k%d" % i: i for i in range(at)}
            try:
                r = await run_in_threadpool(fn, *args, **kw)
                mon.ok(n % 2 == 0 and r[0] is sentinel and r[1:] == (args, kw), "result", f"run_in_threadpool gave {r!r}")
            except Exception as e:
                mon.ok(n % 2 == 1 and e is exc, "exception", f"run_in_threadpool raised {e!r} instead of {exc!r}")
            return
        pulled = []

        class It:
            def __init__(self):
                self.i = 0

            def __iter__(self):
                return self

            def __next__(self):
                calls.append((threading.get_ident(), var.get()))
                if what == "iter-raise" and self.i == at:
                    raise exc
                if self.i == n:
                    raise StopIteration
                self.i += 1
                pulled.append(self.i)
                return self.i

        def g():
            for i in range(1, n + 1):
                calls.append((threading.get_ident(), var.get()))
                pulled.append(i)
                yield i

        src = g() if what == "iter-gen" else It()
        got = []
        raised = None
        try:
            async for x in iterate_in_threadpool(src):
                got.append(x)
                mon.n("iterators advanced")
                mon.eq(len(pulled), len(got), "read-ahead", "items pulled from the iterator when item was delivered")
        except Exception as e:
            raised = e
        if what == "iter-raise":
            mon.ok(raised is exc and got == list(range(1, at + 1)), "iterator-exception", f"raised {raised!r} after {got}")
        else:
            mon.ok(raised is None and got == list(range(1, n + 1)), "iterator-items", f"{got} {raised!r}")

    run_async(case["backend"], case["seed"], go)
    judge(mon, calls, True, main)
    if what == "iter":
        mon.ok([x for x in _run_list(case)] == list(range(n)), "iterator-list", "iterating a list")
    if calls:
        mon.nontrivial(what, n, at, case["backend"])


def _run_list(case):
    out = []

    async def go():
        async for x in iterate_in_threadpool(list(range(case["n"]))):
            out.append(x)

    run_async(case["backend"], 0, go)
    return out


def run_upload(case, mon):
    import tempfile

    main = threading.get_ident()
    f = tempfile.SpooledTemporaryFile(max_size=case["spool"])
    ref = io.BytesIO()
    up = UploadFile(f, size=0, filename="x")
    shadow = []

    async def go():
        for i, (op, n) in enumerate(case["ops"]):
            if op == "write":
                data = bytes([65 + i % 26]) * n
                await up.write(data)
                ref.write(data)
            elif op == "read":
                k = n if n % 2 else -1
                mon.eq(await up.read(k), ref.read(k), "upload-read", f"operation {i}: read({k})")
            else:
                k = 0 if op == "seek0" else n
                await up.seek(k)
                ref.seek(k)
        mon.eq(f.tell(), ref.tell(), "upload-position", "position")
        tracking_ops = len(tracking.DISK_OPS)
        await up.close()
        shadow.append(tracking_ops)

    run_async(case["backend"], case["seed"], go)
    mon.ok(f.closed, "upload-open", "the file is open after close()")
    ops = list(tracking.DISK_OPS)
    for name, tid in ops:
        mon.n("upload disk operations")
        mon.ok(tid != main, "upload-disk-on-loop", f"{name}() of an upload on disk ran in the event loop's thread (spool {case['spool']}, operations {case['ops']})")
    mon.nontrivial("upload", len(ops), case["spool"], len(case["ops"]))


def run_form(case, mon):
    from starlette.requests import Request

    from vp.asgi import chunking, split_body

    main = threading.get_ident()
    n = case["n"]
    body = b'--b\r\nContent-Disposition: form-data; name="f"; filename="f"\r\n\r\n' + b"x" * n + b"\r\n--b--"
    got = []

    async def app(scope, receive, send):
        request = Request(scope, receive)
        async with request.form() as form:
            while True:
                c = await form["f"].read(400000)
                if not c:
                    break
                got.append(len(c))
            await form["f"].seek(5)
            got.append(len(await form["f"].read()))
        await PlainTextResponse("x")(scope, receive, send)

    t = drive(app, http_scope("POST", headers=[("content-type", "multipart/form-data; boundary=b")]), chunks=split_body(body, chunking(random.Random(n), len(body), "blocks")), backend=case["backend"])
    if t.exc:
        raise t.exc
    mon.eq(sum(got), 2 * n - 5, "upload-read", "bytes read from the upload")
    for name, tid in list(tracking.DISK_OPS):
        mon.n("upload disk operations")
        mon.ok(tid != main, "upload-disk-on-loop", f"{name}() of a {n} byte upload ran in the event loop's thread")
    if n > 1048576:
        mon.ok(tracking.STATS["rolled"] > 0, "not-spooled", "the upload was not moved to disk")
    mon.nontrivial("form", n, case["backend"])


def _disk(mon, main, what):
    for name, tid in OPS:
        mon.n("disk operations off the loop")
        mon.ok(tid != main, "disk-on-loop", f"{name}() ran in the event loop's thread while serving {what}")


def run_static(case, mon):
    main = threading.get_ident()
    app = StaticFiles(directory=mon.root, html=case["html"])
    OPS.clear()
    headers = [("range", case["range"])] if case["range"] else []
    star = Starlette(routes=[Mount("/s", app)])
    path = case["path"].replace("%00", "\0")
    t = drive(star, http_scope(case["method"], "/s" + path, headers=headers), backend=case["backend"], seed=case["seed"])
    if t.exc:
        raise t.exc
    _disk(mon, main, case["path"])
    if OPS:
        mon.nontrivial("static", case["path"], case["html"], case["method"], t.status)


def run_file(case, mon):
    main = threading.get_ident()
    OPS.clear()
    headers = [("range", case["range"])] if case["range"] else []
    resp = FileResponse(os.path.join(mon.root, case["path"]))
    t = drive(resp, http_scope(case["method"], "/", headers=headers), backend=case["backend"], seed=case["seed"])
    if t.exc:
        raise t.exc
    _disk(mon, main, case["path"])
    mon.nontrivial("file", case["path"], case["range"], case["method"], t.status)


def run_barrier(case, mon):
    """k requests whose blocking parts wait for each other: they finish only if they really run side by side."""
    k = case["k"]
    barrier = threading.Barrier(k)
    broken = []

    def meet(*a):
        try:
            barrier.wait(8)
        except threading.BrokenBarrierError:
            broken.append(1)

    def endpoint(request):
        meet()
        return PlainTextResponse("x")

    class E(HTTPEndpoint):
        def get(self, request):
            return endpoint(request)

    async def bg(request):
        return PlainTextResponse("x", background=BackgroundTask(meet))

    async def stream(request):
        def g():
            meet()
            yield b"x"

        return StreamingResponse(g())

    def wsgi(environ, start_response):
        meet()
        start_response("200 OK", [])
        return [b"x"]

    async def direct(request):
        await run_in_threadpool(meet)
        return PlainTextResponse("x")

    site = case["site"]
    app = Starlette(routes=[Mount("/", app=WSGIMiddleware(wsgi)) if site == "wsgi" else Route("/", {"endpoint": endpoint, "endpoint-class": E, "background": bg, "stream": stream, "run": direct}[site])])
    traces = [Trace() for _ in range(k)]
    ticks = [0]

    async def main():
        async with anyio.create_task_group() as tg:
            async def one(t):
                s = ServerSide(t, jit=Jit(case["seed"], 1))
                await call_app(app, http_scope(), s, t)

            for t in traces:
                tg.start_soon(one, t)

    run_async(case["backend"], case["seed"], main)
    mon.n("concurrent barriers")
    mon.ok(not broken, "not-concurrent", f"{k} blocking calls ({site}) did not run side by side")
    mon.ok(all(t.body == b"x" and t.exc is None for t in traces), "barrier-result", f"{[t.exc for t in traces]}")
    mon.nontrivial("barrier", site, k, case["backend"])
