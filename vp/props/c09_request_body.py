from __future__ import annotations

import json

import anyio

from starlette.applications import Starlette
from starlette.requests import ClientDisconnect, Request
from starlette.responses import JSONResponse, PlainTextResponse
from starlette.routing import Route

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, chunking, drive, http_scope, no_leaks, split_body
from vp.engine import mk

ID = "C09"
PROP = dict(
    title="The request body reads back complete and in order under any delivery",
    statement=(
        "For every division of a request body into messages (empty chunks, missing optional keys, trailing empty message), body() returns exactly the concatenated bytes, "
        "json() exactly the value they encode, and stream() the non-empty chunks in arrival order followed by one empty chunk, without ever asking the server for a message "
        "past the end of the body. Repeated body() and json() calls return the same data, stream() and form() still work after body(), and reading a body that stream() already consumed "
        "raises instead of hanging or returning partial data. If the client disconnects before the end every reader raises the client-disconnect exception and no partial body is ever passed off as complete; "
        "is_disconnected() never blocks, is true from the disconnect on, and does not affect a body that was already read."
    ),
    over=["inputs", "schedules", "histories", "fault_sequences"],
    quant="every body, message division, sequence of reading calls, disconnect point, injected scheduling, asyncio and trio",
    why="tests use one or two fixed chunkings and one call order",
    files=["starlette/requests.py"],
    mechanism=[("Request.stream/body/json/is_disconnected", "starlette/requests.py:Request")],
)
TECH = "runtime monitoring: call-history checker against a reference reader, with message-level delivery log"
RULE = "each case is a body, its division into messages, a sequence of 1-6 reading calls and an optional disconnect; non-trivial when at least one call returned data or had to raise"
LEVEL_NOTE = "held on the generated histories"
BUDGET = {"quick": (120000, 18), "thorough": (1500000, 240)}
REQUIRED = ("bodies read", "streams read", "json read", "disconnects raised", "consumed streams refused", "is_disconnected answers")

OPS = ["body", "body", "stream", "json", "isdisc", "form"]


def fixed(tier):
    out = []
    for sizes, body in (([0], ""), ([3], "123"), ([1, 1, 1], "123"), ([0, 3], "123"), ([3, 0], "123"), ([0, 0, 0], "")):
        for ops in (["body"], ["stream"], ["json"], ["body", "body", "json", "stream", "stream"], ["stream", "body"], ["stream", "stream"], ["stream", "json"], ["json", "body"], ["body", "isdisc", "body"], ["body", "form"]):
            for strip in (False, True):
                for be in ("asyncio", "trio"):
                    out.append(dict(body=body, sizes=sizes, tail=False, ops=ops, disc=None, jit=0, seed=0, backend=be, strip=strip, via="raw", silent=False))
    for d in (0, 1, 2):
        for ops in (["body"], ["stream"], ["json"], ["body", "body"], ["body", "isdisc"], ["stream", "isdisc"]):
            out.append(dict(body="12345678", sizes=[2, 2, 4], tail=False, ops=ops, disc=d, jit=1, seed=0, backend="asyncio", strip=False, via="raw", silent=False))
    # known finding: is_disconnected() before the body was read swallows a message that is already there
    out.append(dict(body="123", sizes=[3], tail=True, ops=["isdisc", "body"], disc=None, jit=0, seed=0, backend="asyncio", strip=False, via="raw", silent=True, kf=True))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.35:
        text = json.dumps(gens.json_value(rng))
        body = text if text.isascii() else json.dumps(json.loads(text))
        n = len(body)
    elif r < 0.5:
        v = gens.text(rng, 0, 20)
        body = json.dumps(v, ensure_ascii=False).encode(rng.choice(["utf-8", "utf-16", "utf-32-le", "utf-8-sig"])).decode("latin-1")
        n = len(body)
    else:
        body = gens.body_spec(rng)
        n = len(mk(body))
    sizes = chunking(rng, n)
    ops = [rng.choice(OPS) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    seen = False
    clean = []
    for op in ops:
        if op == "isdisc" and not seen:
            continue  # see the known finding
        if op in ("body", "json", "stream"):
            seen = True
        clean.append(op)
    disc = rng.choice([None, None, None, None, rng.randrange(0, len(sizes))])
    return dict(body=body, sizes=sizes, tail=rng.random() < 0.3, ops=clean or ["body"], disc=disc, jit=rng.choice([0, 0, 1, 2]), seed=rng.randrange(10**6),
                backend=gens.backend(rng), strip=rng.random() < 0.3, via=rng.choice(["raw", "app"]), silent=rng.random() < 0.5)


def run(case, mon):
    body = mk(case["body"])
    msgs = split_body(body, case["sizes"], case["tail"])
    nonempty = [c for c, _ in msgs if c]
    disc = case["disc"]
    results = []

    async def reader(request):
        for op in case["ops"]:
            try:
                if op == "body":
                    r = await request.body()
                elif op == "json":
                    r = await request.json()
                elif op == "stream":
                    r = []
                    async for c in request.stream():
                        r.append(c)
                        await jit()
                elif op == "form":
                    f = await request.form()
                    r = f.multi_items()
                else:
                    with anyio.fail_after(15):
                        r = await request.is_disconnected()
                results.append((op, "ok", r))
            except (ClientDisconnect, RuntimeError, ValueError, AssertionError) as exc:
                results.append((op, type(exc).__name__, exc))

    jit = Jit(case["seed"] + 3, case["jit"])
    nrecv = [0, 0]

    async def raw(scope, receive, send):
        async def rec():
            nrecv[0] += 1
            m = await receive()
            nrecv[1] += m["type"] == "http.request"
            if case["strip"]:
                if m.get("body") == b"":
                    del m["body"]
                if m.get("more_body") is False:
                    del m["more_body"]
            return m

        await reader(Request(scope, rec))
        await PlainTextResponse("x")(scope, rec, send)

    async def endpoint(request):
        await reader(request)
        return PlainTextResponse("x")

    app = raw if case["via"] == "raw" else Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    scope = http_scope(method="POST", headers=[("content-type", "application/octet-stream")])
    t = drive(app, scope, chunks=msgs, backend=case["backend"], seed=case["seed"], jitter=case["jit"], disconnect_on_recv=disc, silent=case["silent"])
    no_leaks(t, mon)
    if t.exc:
        raise t.exc
    gone = disc is not None and disc < len(msgs)

    if case.get("kf"):
        got = [r for r in results if r[0] == "body"][0]
        if got[1] == "ok" and got[2] == body:
            return
        mon.fail("is-disconnected-drops-body" if got[1] == "ok" and got[2] == b"" else "body", f"is_disconnected() before body(): body() gave {got[2]!r} instead of {body!r}")
        return
    # ---- reference model of the reader
    cached = False
    consumed = False
    left = False  # the disconnect has been seen
    jcached = False
    for i, (op, kind, val) in enumerate(results):
        if op == "form":
            # not a form: nothing to parse, nothing consumed
            mon.eq((kind, val), ("ok", []), "form", "form() of a body that is not a form")
            continue
        if op == "isdisc":
            mon.n("is_disconnected answers")
            if left:
                mon.eq((kind, val), ("ok", True), "is_disconnected", "is_disconnected() after the disconnect")
            elif case["silent"] and not gone:
                mon.eq((kind, val), ("ok", False), "is_disconnected", "is_disconnected() of a connected client")
            continue
        if op in ("body", "json") and (cached or (op == "json" and jcached)):
            pass
        elif op == "stream" and cached:
            pass
        elif consumed:
            mon.n("consumed streams refused")
            mon.eq(kind, "RuntimeError", "consumed", f"{op}() after the stream was consumed")
            continue
        elif gone:
            mon.n("disconnects raised")
            mon.eq(kind, "ClientDisconnect", "disconnect", f"{op}() when the client left after {disc} of {len(msgs)} messages gave {val!r:.200}")
            left = True
            continue
        if op == "body":
            mon.n("bodies read")
            mon.eq((kind, val), ("ok", body), "body", f"call {i}: body()")
            cached = True
        elif op == "json":
            mon.n("json read")
            cached = True
            try:
                want = ("ok", json.loads(body))
            except ValueError as exc:
                mon.ok(kind in ("ValueError", "JSONDecodeError", "UnicodeDecodeError"), "json-error", f"json() of invalid JSON gave {kind} {val!r:.200}")
                continue
            mon.ok((kind, repr(val)) == ("ok", repr(want[1])), "json", f"call {i}: json() gave {kind} {val!r:.300}, expected {want[1]!r:.300}")
        elif op == "stream":
            mon.n("streams read")
            if cached:
                mon.ok(kind == "ok" and b"".join(val) == body and val[-1] == b"", "stream-after-body", f"call {i}: {val!r:.300}")
            else:
                mon.eq((kind, val), ("ok", nonempty + [b""]), "stream", f"call {i}: stream()")
                consumed = True
    if case["via"] == "raw" and not gone and "isdisc" not in case["ops"]:
        reads = any(op in ("body", "json", "stream") for op, k, _ in results)
        mon.eq(nrecv[0], len(msgs) if reads else 0, "over-reading", "messages requested from the server")
    mon.nontrivial(case["ops"], len(msgs), gone, case["tail"])
