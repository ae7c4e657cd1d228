from __future__ import annotations

import anyio

from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse, StreamingResponse

from vp import gens
from vp.asgi import Jit, chunking, drive, http_protocol, http_scope, no_leaks, split_body
from vp.engine import mk

ID = "C08"
PROP = dict(
    title="BaseHTTPMiddleware leaves the request body available downstream",
    statement=(
        "For every stack of BaseHTTPMiddleware and every chunking of the request body, the application below sees exactly the full body when each "
        "dispatch above it left the body unread or read it with body() or json(), and an empty, properly terminated body when one consumed it with stream(); "
        "every dispatch that reads with body() itself gets the full body under the same rule. Downstream, the body is terminated exactly once and is followed only by "
        "disconnect messages, and a disconnect is never reported before the client went away or the application completed its response. When the client disconnects before the body "
        "is complete, whoever is reading it learns so, and a downstream application that waits for a disconnect after the response is released; no reading pattern makes the stack hang."
    ),
    over=["inputs", "schedules", "fault_sequences"],
    quant="every stack of reading behaviours, request chunking, downstream reading style, disconnect point, injected scheduling, asyncio and trio",
    why="tests cover each reading pattern once with one- or two-chunk bodies and a single middleware",
    files=["starlette/middleware/base.py", "starlette/requests.py"],
    mechanism=[("_CachedRequest.wrapped_receive", "starlette/middleware/base.py"), ("receive_or_disconnect", "starlette/middleware/base.py")],
)
TECH = "runtime monitoring: message-level checker of what each layer and the application received, against a reference of the reading rules"
RULE = "each case is a chunked request body, a stack of 1-4 reading behaviours, a downstream reading style and an optional disconnect point; non-trivial when a downstream body or disconnect was compared"
LEVEL_NOTE = "held on the generated executions; hangs are detected per case by a generous watchdog and confirmed in isolation"
BUDGET = {"quick": (60000, 20), "thorough": (800000, 300)}
REQUIRED = ("full bodies downstream", "empty bodies downstream", "disconnects mid-body", "released after response", "bodies read in dispatch")

OPS = ["none", "none", "body", "body", "stream", "json", "bodytwice", "bodystream", "form"]
DOWN = ["raw", "raw", "body", "stream", "ignore", "streaming", "rawtasks", "waiter", "two"]


def fixed(tier):
    out = []
    for ops in (["none"], ["body"], ["stream"], ["body", "body"], ["none", "body"], ["body", "none"], ["body", "stream"], ["stream", "body"], ["none", "none"], ["bodystream"]):
        for down in sorted(set(DOWN)):
            for sizes in ([0], [5], [2, 3], [0, 5, 0], [1, 1, 1, 1, 1]):
                out.append(dict(ops=ops, down=down, body=["rep", "1", sum(sizes)], sizes=sizes, tail=False, disc=None, jit=1, seed=1, backend="asyncio", silent=False))
            out.append(dict(ops=ops, down=down, body="12345", sizes=[2, 3], tail=True, disc=None, jit=0, seed=1, backend="trio", silent=True))
            out.append(dict(ops=ops, down=down, body="12345", sizes=[2, 3], tail=False, disc=1, jit=0, seed=1, backend="asyncio", silent=False))
            out.append(dict(ops=ops, down=down, body="12345", sizes=[2, 3], tail=False, disc=0, jit=0, seed=1, backend="asyncio", silent=False))
    return out


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 5, 20, 300, 65536, 70000])
    body = ["rep", "0123456789"[rng.randrange(1, 10)], n] if n < 4000 else ["rnd", rng.randrange(100), n]
    sizes = chunking(rng, n)
    down = rng.choice(DOWN)
    disc = rng.choice([None] * 4 + [rng.randrange(0, len(sizes) + 1)])
    if disc is not None and disc >= len(sizes):
        disc = None
    return dict(
        ops=[rng.choice(OPS) for _ in range(rng.choice([1, 1, 2, 3, 4]))],
        down=down,
        body=body,
        sizes=sizes,
        tail=rng.random() < 0.3,
        disc=disc,
        jit=rng.choice([0, 1, 2]),
        seed=rng.randrange(10**6),
        backend=rng.choice(["asyncio", "asyncio", "trio"]),
        silent=rng.random() < 0.4,
    )


def run(case, mon):
    body = mk(case["body"])
    msgs = split_body(body, case["sizes"], case["tail"])
    jit = Jit(case["seed"] + 9, case["jit"])
    disc = case["disc"]
    got = {"down": None, "msgs": [], "after": [], "early": False}
    dispatch_bodies = []
    disconnects = []
    state = {"final": False, "gone": False, "waiting": False, "released": False}

    def dispatcher(i, op):
        async def dispatch(request, call_next):
            await jit()
            try:
                if op in ("body", "bodytwice"):
                    dispatch_bodies.append((i, await request.body()))
                    if op == "bodytwice":
                        dispatch_bodies.append((i, await request.body()))
                elif op == "json":
                    try:
                        await request.json()
                    except ValueError:
                        pass
                    dispatch_bodies.append((i, await request.body()))
                elif op == "bodystream":
                    b = await request.body()
                    s = b""
                    async for c in request.stream():
                        s += c
                    mon.eq(s, b, "stream-after-body", "stream() after body()")
                    dispatch_bodies.append((i, b))
                elif op == "stream":
                    s = b""
                    async for c in request.stream():
                        s += c
                    dispatch_bodies.append((i, s))
                elif op == "form":
                    await request.form()
            except ClientDisconnect:
                disconnects.append(i)
                raise
            await jit()
            return await call_next(request)

        return dispatch

    async def app(scope, receive, send0):
        async def send(m):
            # from here on the stack may tell the application that the exchange is over
            if m["type"] == "http.response.body" and not m.get("more_body", False):
                state["final"] = True
            await send0(m)

        async def recv():
            m = await receive()
            got["msgs"].append(m)
            if m["type"] == "http.disconnect" and not state["gone"] and not state["final"]:
                got["early"] = True
            return m

        down = case["down"]
        request = Request(scope, recv)
        try:
            if down == "raw" or down == "waiter":
                b, more = b"", True
                while more:
                    m = await recv()
                    await jit()
                    if m["type"] == "http.disconnect":
                        raise ClientDisconnect()
                    b += m.get("body", b"")
                    more = m.get("more_body", False)
                got["down"] = b
            elif down == "body":
                got["down"] = await request.body()
            elif down == "two":
                b = await request.body()
                got["down"] = b
                mon.eq(await request.body(), b, "second-body", "body() read twice")
            elif down == "stream":
                b = b""
                async for c in request.stream():
                    b += c
                    await jit()
                got["down"] = b
            elif down == "rawtasks":
                # an unrelated task watches for the disconnect while the main one reads
                got["down"] = await request.body()

                async def watch():
                    while (await recv())["type"] != "http.disconnect":
                        pass
                    state["released"] = True

                async with anyio.create_task_group() as tg:
                    state["waiting"] = True
                    tg.start_soon(watch)
                    await PlainTextResponse("ok")(scope, recv, send)
                return
            elif down == "streaming":
                async def g():
                    for i in range(3):
                        await jit()
                        yield b"ok"

                return await StreamingResponse(g())(scope, recv, send)
        except ClientDisconnect:
            disconnects.append("app")
            raise
        await PlainTextResponse("ok")(scope, recv, send)
        if down == "waiter":
            state["waiting"] = True
            for _ in range(2):
                m = await recv()
                got["after"].append(m["type"])
            state["released"] = True

    stack = app
    for i, op in reversed(list(enumerate(case["ops"]))):
        stack = BaseHTTPMiddleware(stack, dispatch=dispatcher(i, op))

    async def top(scope, receive, send):
        async def rec():
            m = await receive()
            if m["type"] == "http.disconnect":
                state["gone"] = True
            return m

        await stack(scope, rec, send)

    scope = http_scope(method="POST", headers=[("content-type", "application/x-www-form-urlencoded")])
    t = drive(top, scope, chunks=msgs, backend=case["backend"], seed=case["seed"], jitter=case["jit"], disconnect_on_recv=disc, silent=case["silent"])
    no_leaks(t, mon)
    http_protocol(t, mon)
    mon.ok(not got["early"], "early-disconnect", "the application was told about a disconnect before the client left or its response was complete")
    # ---- reference
    readers = [(i, op) for i, op in enumerate(case["ops"]) if op != "none"]
    first = readers[0] if readers else None
    down_reads = case["down"] not in ("ignore", "streaming")
    req = [m for m in got["msgs"] if m["type"] == "http.request"]
    fin = [not m.get("more_body", False) for m in req]
    if True in fin:
        mon.eq(fin.index(True), len(fin) - 1, "after-terminator", "request messages followed the end of the body")
    types = [m["type"] for m in got["msgs"]]
    if "http.disconnect" in types:
        rest = set(types[types.index("http.disconnect") :])
        mon.eq(rest, {"http.disconnect"}, "after-disconnect", "message types after a disconnect")
    mon.ok(all(isinstance(m.get("body", b""), bytes) for m in req), "body-type", "")
    if disc is not None and disc < len(msgs):
        # the client leaves before the body is complete
        mon.n("disconnects mid-body")
        if first is not None:
            mon.eq(disconnects, [first[0]], "disconnect-noticed", "who noticed the disconnect")
            mon.ok(type(t.exc) is ClientDisconnect, "disconnect-exception", f"ended with {t.exc!r}")
        elif down_reads:
            mon.eq(disconnects, ["app"], "disconnect-noticed", "who noticed the disconnect")
            mon.ok(type(t.exc) is ClientDisconnect, "disconnect-exception", f"ended with {t.exc!r}")
            prefix = b"".join(m.get("body", b"") for m in req)
            mon.eq(prefix, b"".join(c for c, _ in msgs[:disc]), "prefix", "what arrived before the disconnect")
        elif t.exc:
            raise t.exc
        mon.nontrivial("disc", case["ops"], case["down"], disc)
        return
    if t.exc:
        raise t.exc
    consumed = None
    for i, op in enumerate(case["ops"]):
        want = b"" if consumed is not None else body
        for j, b in dispatch_bodies:
            if j == i:
                mon.n("bodies read in dispatch")
                mon.eq(b, want, "dispatch-body", f"body read by layer {i} ({op})")
        if op in ("stream", "form") and consumed is None:
            consumed = i
    want = b"" if consumed is not None else body
    if down_reads:
        mon.n("empty bodies downstream" if consumed is not None else "full bodies downstream")
        mon.eq(got["down"], want, "downstream-body", "body seen by the application")
        if case["down"] in ("raw", "waiter"):
            mon.ok(fin and fin[-1], "unterminated", "the body was not terminated")
    if state["waiting"]:
        mon.n("released after response")
        mon.ok(state["released"], "not-released", "the application was not released")
        mon.eq(set(got["after"]) | {"http.disconnect"}, {"http.disconnect"}, "after-response", "messages after the response")
    mon.eq(t.status, 200, "status", "status")
    mon.nontrivial(case["ops"], case["down"], len(case["sizes"]), case["tail"], case["backend"], case["silent"])
