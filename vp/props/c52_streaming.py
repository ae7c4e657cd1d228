from __future__ import annotations

import gc
import os
import tracemalloc
from collections import deque

import anyio

from starlette.applications import Starlette
from starlette.endpoints import WebSocketEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.responses import FileResponse, PlainTextResponse, StreamingResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.staticfiles import StaticFiles

from vp import tracking
from vp.asgi import http_scope, ws_scope

ID = "C52"
PROP = dict(
    title="Streamed data is passed on piece by piece, never piled up or read ahead",
    statement=(
        "However much is transferred and however slow either side is, a body that is streamed passes through any stack of middleware piece by piece: a chunk is taken from a response's iterator only when the earlier ones were handed to the server but for a constant number (one or two for each middleware), a message is taken from the server only when the application asks for it, "
        "and each chunk is handed on without waiting for the next. The memory in use while streaming a request, storing an upload, sending a file, a range of it, a static file or a streamed response, compressed or not, or talking over a WebSocket does not depend on the amount transferred; a body that is read as a whole is held no more than twice. (WSGI applications, whose interface has no streaming of uploads, are left out.)"
    ),
    over=["schedules", "inputs", "configurations"],
    quant="every number and size of chunks, speed of producer and consumer, middleware stack, kind of body, file and range size",
    why="whether data is buffered does not show in what arrives; tests transfer a few bytes",
    files=["starlette/responses.py", "starlette/requests.py", "starlette/formparsers.py", "starlette/middleware/base.py", "starlette/middleware/gzip.py", "starlette/websockets.py", "starlette/endpoints.py", "starlette/concurrency.py", "starlette/datastructures.py"],
    mechanism=[("StreamingResponse", "starlette/responses.py:StreamingResponse.stream_response"), ("FileResponse", "starlette/responses.py:FileResponse"), ("memory streams of BaseHTTPMiddleware", "starlette/middleware/base.py:BaseHTTPMiddleware.__call__"), ("spooled uploads", "starlette/formparsers.py:MultiPartParser.parse"), ("threadpool iteration", "starlette/concurrency.py:iterate_in_threadpool")],
)
TECH = "runtime monitoring: counters on both ends of every stream (chunks produced against messages accepted, messages taken against chunks consumed) and peak traced memory at two amounts of data"
RULE = "each case is one transfer through a generated stack; non-trivial when both ends were counted or both peaks measured"
LEVEL_NOTE = "held on the generated transfers; amounts up to tens of megabytes"
BUDGET = {"quick": (20000, 14), "thorough": (200000, 160)}
REQUIRED = ("response streams", "request streams", "websocket streams", "memory compared", "slow servers", "slow applications", "first chunk alone", "producer rests", "client rests", "trio")

LAYERS = ["base", "gzip", "session", "cors", "pure", "mount", "wrap"]
MEM = ["stream-in", "upload", "upload-many", "file", "file-range", "file-ranges", "static", "stream-out", "stream-out-gzip", "stream-sync", "ws", "body", "form-discard", "file-gzip"]


def fixed(tier):
    out = []
    i = 0
    for stack in ([], ["base"], ["gzip"], ["base", "base", "base"], ["gzip", "base"], ["base", "gzip"], ["session", "cors", "pure", "mount"], ["mount", "base", "gzip", "base"], ["wrap", "base"]):
        for speed in (0, 1, 5):
            for gen in ("async", "sync", "aiter"):
                i += 1
                out.append(dict(kind="out", stack=stack, n=30, size=[10, 700, 0, 70000][i % 4], gen=gen, speed=speed, spec=["2.0", "2.3", "2.4"][i % 3], backend=["asyncio", "trio"][i % 5 == 0], accept=i % 2 == 0))
            for how in ("stream", "stream-part", "base-stream"):
                i += 1
                out.append(dict(kind="in", stack=stack, n=30, size=[10, 700, 70000][i % 3], how=how, speed=speed, backend=["asyncio", "trio"][i % 5 == 0]))
        for how in ("iter", "class", "json"):
            out.append(dict(kind="ws", stack=stack, n=30, how=how, speed=3, backend="asyncio"))
    for m in MEM:
        for stack in ([], ["base"], ["base", "gzip", "session"]):
            out.append(dict(kind="mem", what=m, stack=stack, chunk=65536))
    return out


def gen(rng, tier):
    stack = [rng.choice(LAYERS) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    r = rng.random()
    backend = "trio" if rng.random() < 0.2 else "asyncio"
    if r < 0.5:
        return dict(kind="out", stack=stack, n=rng.choice([2, 10, 40, 100]), size=rng.choice([0, 1, 100, 501, 5000, 70000]), gen=rng.choice(["async", "sync", "aiter"]), speed=rng.randrange(0, 7), spec=rng.choice(["2.0", "2.3", "2.4"]), backend=backend, accept=rng.random() < 0.6)
    if r < 0.85:
        return dict(kind="in", stack=stack, n=rng.choice([2, 10, 40, 100]), size=rng.choice([1, 100, 5000, 70000]), how=rng.choice(["stream", "stream-part", "base-stream"]), speed=rng.randrange(0, 7), backend=backend)
    if r < 0.95:
        return dict(kind="ws", stack=stack, n=rng.choice([5, 40]), how=rng.choice(["iter", "class", "json"]), speed=rng.randrange(0, 5), backend=backend)
    return dict(kind="mem", what=rng.choice(MEM), stack=stack, chunk=rng.choice([20000, 65536, 200000]))


DIR = {}


def worker_setup(mon):
    os.makedirs("st", exist_ok=True)
    DIR["d"] = os.path.abspath("st")


class Pure:
    def __init__(self, app):
        self.app = app

    async def __call__(self, scope, receive, send):
        async def snd(m):
            await send(m)

        async def rcv():
            return await receive()

        await self.app(scope, rcv, snd)


def build(stack, routes):
    """The routes under the stack; a mount counts as a layer of routing with its own middleware."""

    async def dispatch(request, call_next):
        return await call_next(request)

    async def rewrap(request, call_next):
        response = await call_next(request)

        async def pieces():
            async for c in response.body_iterator:
                yield c

        return StreamingResponse(pieces(), response.status_code, response.headers)

    make = {"wrap": lambda: Middleware(BaseHTTPMiddleware, dispatch=rewrap), "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=dispatch), "gzip": lambda: Middleware(GZipMiddleware, minimum_size=500, compresslevel=1), "session": lambda: Middleware(SessionMiddleware, secret_key="k"), "cors": lambda: Middleware(CORSMiddleware, allow_origins=["*"]), "pure": lambda: Middleware(Pure)}
    if "mount" in stack:
        k = stack.index("mount")
        return Starlette(routes=[Mount("/", routes=routes, middleware=[make[m]() for m in stack[k + 1 :] if m != "mount"])], middleware=[make[m]() for m in stack[:k]])
    return Starlette(routes=routes, middleware=[make[m]() for m in stack])


def allowed(stack):
    """How many chunks may be under way between the two ends."""
    return 2 + 2 * len([m for m in stack if m in ("base", "gzip", "wrap")])


async def pause(k):
    for _ in range(k):
        await anyio.sleep(0)


def run(case, mon):
    if case["backend" if "backend" in case else "kind"] == "trio":
        mon.n("trio")
    {"out": run_out, "in": run_in, "ws": run_ws, "mem": run_mem}[case["kind"]](case, mon)
    tracking.FILES.clear()
    tracking.DISK_OPS.clear()


def run_out(case, mon):
    n, size, stack = case["n"], case["size"], case["stack"]
    made = [0]
    got = [0]  # body messages the server has accepted
    lead = [0]
    alone = []
    # BaseHTTPMiddleware passes on no empty chunks, and compressing makes empty ones of small ones: then there is nothing to count
    relay = min((stack.index(m) for m in ("base", "wrap") if m in stack), default=None)
    inner = case["accept"] and relay is not None and "gzip" in stack[relay:]
    counted = not (relay is not None and size == 0 or inner and size < 70000)

    def data(i):
        return os.urandom(size) if i % 2 or inner else b"x" * size

    def note():
        lead[0] = max(lead[0], made[0] - got[0])
        if made[0] == allowed(stack) + 1:
            alone.append(got[0])
        made[0] += 1

    async def stall(i):
        """The producer rests: what it has made so far must reach the server meanwhile."""
        if i in stalls:
            for _ in range(400 + 40 * case["speed"]):
                if got[0] >= i:
                    break
                await anyio.sleep(0)
            else:
                late.append((i, got[0]))
            mon.n("producer rests")

    stalls = {1, 2, n // 2, n - 1}
    late = []

    async def agen():
        for i in range(n):
            await stall(i)
            note()
            yield data(i)

    def sgen():
        for i in range(n):
            note()
            yield data(i)

    class AIter:
        def __init__(self):
            self.i = 0

        def __aiter__(self):
            return self

        async def __anext__(self):
            if self.i == n:
                raise StopAsyncIteration
            await stall(self.i)
            self.i += 1
            note()
            return data(self.i)

    async def ep(request):
        return StreamingResponse({"async": agen, "sync": sgen, "aiter": AIter}[case["gen"]](), media_type="text/plain")

    app = build(stack, [Route("/r", ep)])

    async def main():
        over = anyio.Event()
        first = [True]

        async def receive():
            if first[0]:
                first[0] = False
                return {"type": "http.request", "body": b"", "more_body": False}
            await over.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            await pause(case["speed"])
            if m["type"] == "http.response.body":
                got[0] += 1
                if not m.get("more_body", False):
                    over.set()

        with anyio.fail_after(15):
            await app(http_scope("GET", "/r", [("host", "h")] + ([("accept-encoding", "gzip")] if case["accept"] else []), spec_version=case["spec"]), receive, send)

    anyio.run(main, backend=case["backend"])
    what = f"{case}"
    mon.n("response streams")
    if case["speed"]:
        mon.n("slow servers")
    mon.eq(made[0], n, "chunks-made", what)
    mon.ok(lead[0] <= allowed(stack) or not counted, "read-ahead", f"{what}: {lead[0]} chunks were taken from the iterator that the server had not been given")
    if counted:
        mon.ok(not late, "waits-for-the-next", f"{what}: when so many chunks had been produced, only so many had been handed to the server, however long the producer rested: {late}")
    if alone and counted:
        mon.n("first chunk alone")
        mon.ok(alone[0] >= 1, "held-back", f"{what}: nothing was handed to the server when {allowed(stack) + 1} chunks had been produced")
    mon.nontrivial(case["gen"], stack, n, size, case["speed"], lead[0])


def run_in(case, mon):
    n, size, stack = case["n"], case["size"], case["stack"]
    taken = [0]
    used = [0]
    lead = [0]

    async def ep(request):
        stop = n // 2 if case["how"] == "stream-part" else n
        if case["how"] == "base-stream":
            await pause(20)
        async for c in request.stream():
            await pause(case["speed"])
            lead[0] = max(lead[0], taken[0] - used[0])
            if c:
                used[0] += 1
            if used[0] >= stop and case["how"] == "stream-part":
                await pause(20)
                lead[0] = max(lead[0], taken[0] - used[0])
                break
        return PlainTextResponse("x")

    app = build(stack, [Route("/r", ep, methods=["POST"])])

    late = []

    async def main():
        over = anyio.Event()

        async def receive():
            if taken[0] < n:
                if taken[0] in (1, 2, n // 2, n - 1):
                    # the client rests: the application must get what there is
                    for _ in range(400 + 40 * case["speed"]):
                        if used[0] >= taken[0]:
                            break
                        await anyio.sleep(0)
                    else:
                        late.append((taken[0], used[0]))
                    mon.n("client rests")
                taken[0] += 1
                return {"type": "http.request", "body": b"d" * size, "more_body": taken[0] < n}
            await over.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            if m["type"] == "http.response.body" and not m.get("more_body", False):
                over.set()

        with anyio.fail_after(15):
            await app(http_scope("POST", "/r", [("host", "h")], spec_version="2.4"), receive, send)

    anyio.run(main, backend=case["backend"])
    what = f"{case}"
    mon.n("request streams")
    if case["speed"]:
        mon.n("slow applications")
    mon.ok(not late, "request-waits-for-the-next", f"{what}: when so many messages had been taken from the server, the application had been given only so many, however long the client rested: {late}")
    if case["how"] != "stream-part":
        mon.eq(used[0], n, "chunks-used", what)
    mon.ok(lead[0] <= 1 + allowed(stack), "read-ahead", f"{what}: {lead[0]} messages were taken from the server that the application had not asked for")
    mon.nontrivial(case["how"], stack, n, size, case["speed"], lead[0])


def run_ws(case, mon):
    n = case["n"]
    taken, used, lead, sent = [0], [0], [0], [0]

    async def handle(websocket, t):
        await pause(case["speed"])
        lead[0] = max(lead[0], taken[0] - used[0])
        used[0] += 1
        before = sent[0]
        await websocket.send_text("t")
        lead[0] = max(lead[0], before + 2 - sent[0])

    async def ep(websocket):
        await websocket.accept()
        async for t in websocket.iter_text() if case["how"] == "iter" else websocket.iter_json():
            await handle(websocket, t)

    class EP(WebSocketEndpoint):
        encoding = "text"

        async def on_receive(self, websocket, data):
            await handle(websocket, data)

    app = build(case["stack"], [WebSocketRoute("/r", EP if case["how"] == "class" else ep)])

    async def main():
        first = [True]

        async def receive():
            if first[0]:
                first[0] = False
                return {"type": "websocket.connect"}
            if taken[0] < n:
                taken[0] += 1
                return {"type": "websocket.receive", "text": "1"}
            return {"type": "websocket.disconnect", "code": 1000}

        async def send(m):
            await pause(2)
            if m["type"] == "websocket.send":
                sent[0] += 1

        with anyio.fail_after(15):
            await app(ws_scope("/r", [("host", "h")]), receive, send)

    anyio.run(main, backend=case["backend"])
    mon.n("websocket streams")
    mon.eq((used[0], sent[0]), (n, n), "ws-messages", f"{case}")
    mon.ok(lead[0] <= 1, "ws-read-ahead", f"{case}: {lead[0]} messages under way")
    mon.nontrivial(case["how"], case["stack"], n, case["speed"])


def big_file(n):
    name = os.path.join(DIR["d"], f"m{n}.bin")
    if not os.path.exists(name):
        with open(name, "wb") as f:
            f.truncate(n)
    return name


def transfer(case, amount):
    """-> peak of traced memory while `amount` bytes are transferred"""
    what, chunk = case["what"], case["chunk"]
    n = max(1, amount // chunk)
    data = b"z" * chunk
    hs, method, path, query = [("host", "h")], "GET", "/r", ""
    stack = list(case["stack"])
    head, tail = b"", b""
    upload = what.startswith(("upload", "form")) or what in ("stream-in", "body")
    ws = what == "ws"

    async def stream_in(request):
        k = 0
        async for c in request.stream():
            k += len(c)
        return PlainTextResponse(str(k))

    async def body(request):
        return PlainTextResponse(str(len(await request.body())))

    async def form(request):
        async with request.form() as f:
            return PlainTextResponse(str(len(f)))

    async def file(request):
        return FileResponse(big_file(amount))

    async def stream_out(request):
        async def g():
            for _ in range(n):
                yield os.urandom(chunk) if what == "stream-out-gzip" else data

        return StreamingResponse(g())

    async def stream_sync(request):
        return StreamingResponse(data for _ in range(n))

    async def wsep(websocket):
        await websocket.accept()
        async for b in websocket.iter_bytes():
            await websocket.send_bytes(b)

    ep = {"stream-in": stream_in, "body": body, "upload": form, "upload-many": form, "form-discard": form, "file": file, "file-range": file, "file-ranges": file, "file-gzip": file, "stream-out": stream_out, "stream-out-gzip": stream_out, "stream-sync": stream_sync}.get(what)
    routes = [Mount("/static", StaticFiles(directory=DIR["d"])), WebSocketRoute("/ws", wsep)] + ([Route("/r", ep, methods=["GET", "POST"])] if ep else [])
    if what.endswith("gzip"):
        hs.append(("accept-encoding", "gzip"))
        stack = ["gzip"] + [m for m in stack if m != "gzip"]
    if what in ("upload", "upload-many"):
        hs.append(("content-type", "multipart/form-data; boundary=b"))
        head = b'--b\r\nContent-Disposition: form-data; name="f"; filename="x"\r\n\r\n'
        tail = b"\r\n--b--\r\n"
    elif what == "form-discard":
        hs.append(("content-type", "text/other"))
    if what == "file-range":
        hs.append(("range", f"bytes=10-{amount - 10}"))
    elif what == "file-ranges":
        hs.append(("range", f"bytes=10-{amount // 2},{amount // 2 + 100}-{amount - 10}"))
    if what == "static":
        path = "/static/" + os.path.basename(big_file(amount))
    if upload:
        method = "POST"
    app = build(stack, routes)

    async def main():
        over = anyio.Event()
        i = [0]

        async def receive():
            await anyio.sleep(0)
            i[0] += 1
            if ws:
                if i[0] == 1:
                    return {"type": "websocket.connect"}
                return {"type": "websocket.receive", "bytes": bytes(chunk)} if i[0] <= n else {"type": "websocket.disconnect", "code": 1000}
            if upload and i[0] <= n:
                b = bytes(chunk)
                if what == "upload-many" and i[0] > 1 and i[0] % max(1, n // 4) == 0:
                    b = b"\r\n" + head.replace(b'"f"', b'"g"') + b[200:]
                return {"type": "http.request", "body": (head if i[0] == 1 else b"") + b, "more_body": True}
            if i[0] == 1 or upload and i[0] == n + 1:
                return {"type": "http.request", "body": tail, "more_body": False}
            await over.wait()
            return {"type": "http.disconnect"}

        async def send(m):
            await anyio.sleep(0)
            if m["type"] == "http.response.body" and not m.get("more_body", False):
                over.set()

        await anyio.to_thread.run_sync(lambda: None)
        gc.collect()
        tracemalloc.start(1)
        try:
            await app(ws_scope("/ws", hs) if ws else http_scope(method, path, hs), receive, send)
            return tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
            tracking.FILES.clear()
            tracking.DISK_OPS.clear()

    return anyio.run(main)


def run_mem(case, mon):
    small, large = 3 * 2**20, 18 * 2**20
    a = transfer(case, small)
    b = transfer(case, large)
    mon.n("memory compared")
    if case["what"] == "body":
        limit = 2 * large + 2 * 2**20
    else:
        limit = a + 2 * 2**20
    mon.ok(b <= limit, "memory", f"{case}: {a / 2**20:.1f} MiB for {small >> 20} MiB, {b / 2**20:.1f} MiB for {large >> 20} MiB")
    mon.nontrivial(case["what"], case["stack"], case["chunk"])
