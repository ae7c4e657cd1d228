from __future__ import annotations

import threading

import anyio

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.requests import ClientDisconnect
from starlette.responses import StreamingResponse
from starlette.routing import Mount, Route

from vp import gens
from vp.asgi import Jit, drive, http_protocol, http_scope, no_leaks
from vp.engine import mk

ID = "C03"
PROP = dict(
    title="Streaming responses deliver every chunk once, in order, and stop on disconnect",
    statement=(
        "For every synchronous or asynchronous iterable of text or byte chunks and every timing of server and producer, a streaming "
        "response sends one start message, then each chunk exactly once and in order with more body announced, then one final message; "
        "the next chunk is only requested once the previous one has been accepted by the server, and no Content-Length is invented. "
        "If the iterable raises, that exception propagates and the body is never marked complete. If the client disconnects, the "
        "response stops consuming even an endless iterable within a bounded number of chunks, the application finishes, and a send "
        "failure reported by a server that implements ASGI 2.4 or later surfaces as a client-disconnect exception with nothing sent after it."
    ),
    over=["inputs", "schedules", "fault_sequences"],
    quant="every iterable kind, chunk sequence, producer/server interleaving, disconnect point, failing send and failing iterator position, ASGI spec version, backend",
    why="tests use one short stream per feature and one disconnect point; ordering, laziness and termination must hold at every interleaving of producer, server and disconnect",
    files=["starlette/responses.py", "starlette/concurrency.py"],
    mechanism=[("StreamingResponse.stream_response / listen_for_disconnect", "starlette/responses.py:StreamingResponse"), ("iterate_in_threadpool", "starlette/concurrency.py")],
)
TECH = "runtime monitoring: online trace monitor over producer pulls, sends and disconnects under injected yields, send faults and disconnects (asyncio and trio)"
RULE = "each case is a chunk sequence, iterable kind, schedule jitter and one fault (none, iterator error at k, disconnect after k sends, send error at k); non-trivial when at least one chunk was pulled or the fault fired"
LEVEL_NOTE = "held on the generated executions; laziness and stopping are judged on logical steps, never on time"
BUDGET = {"quick": (90000, 16), "thorough": (1200000, 300)}
REQUIRED = ("chunks delivered", "iterator errors", "disconnects stopped an endless stream", "send failures")


class Boom(Exception):
    pass


class DiskBoom(Boom, OSError):
    pass


class SyncIter:
    """A plain iterable (not a generator)."""

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self.gen


class AIter:
    def __init__(self, agen):
        self.agen = agen

    def __aiter__(self):
        return self

    async def __anext__(self):
        return await self.agen.__anext__()


def fixed(tier):
    out = []
    for kind in ("agen", "aiter", "gen", "iterable", "list"):
        for spec in ("2.0", "2.3", "2.4", "2.10", "3.0", None):
            for fault in (None, ["disc", 0], ["disc", 3], ["send", 0], ["send", 2], ["iter", 0], ["iter", 2]):
                if fault and kind == "list" and fault[0] == "iter":
                    continue
                for be in ("asyncio", "trio"):
                    if fault is None:
                        for up in ([["ab", True], ["cd", False]], [["ab", True]], [["", True]] * 6 + [["", False]]):
                            out.append(dict(upload=up, kind=kind, chunks=[["b", "one"], ["s", "é"], ["b", ""], ["m", "x"]], endless=False, spec=spec, fault=None, jit=2, pj=1, seed=2, backend=be, headers=None, via="app"))
                    out.append(dict(kind=kind, chunks=[["b", "one"], ["s", "é"], ["b", ""], ["m", "x"]], endless=bool(fault and fault[0] == "disc"), spec=spec, fault=fault, jit=1, pj=1, seed=1, backend=be, headers=None, via="raw"))
    return out


def gen(rng, tier):
    kind = rng.choice(["agen", "agen", "aiter", "gen", "iterable", "list"])
    chunks = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 12])):
        t = rng.choice("bbsm")
        chunks.append([t, gens.text(rng, 0, 8, ctl=True) if t == "s" else gens.body_spec(rng, big=rng.random() < 0.1)])
    fault = None
    r = rng.random()
    if r < 0.2 and kind != "list":
        fault = ["iter", rng.randrange(0, len(chunks) + 1)]
    elif r < 0.4:
        fault = ["disc", rng.randrange(0, len(chunks) + 4)]
    elif r < 0.55:
        fault = ["send", rng.randrange(0, len(chunks) + 2)]
    elif r < 0.62:
        fault = ["discrecv", rng.randrange(0, 2)]
    return dict(
        kind=kind,
        chunks=chunks,
        endless=bool(fault and fault[0] in ("disc", "discrecv")) and kind != "list" and rng.random() < 0.7,
        spec=rng.choice(["2.0", "2.1", "2.3", "2.3", "2.4", "2.4", "2.5", "2.10", "3.0", None]),
        fault=fault,
        jit=rng.choice([0, 1, 2]),
        pj=rng.choice([0, 1, 2]),
        seed=rng.randrange(10**6),
        backend=gens.backend(rng) if kind in ("agen", "aiter") else rng.choice(["asyncio", "asyncio", "asyncio", "asyncio", "trio"]),
        headers=rng.choice([None, None, [["x-a", "1"]], [["Content-Length", "@"]]]),
        via=rng.choice(["raw", "raw", "app", "mount"]),
        # the request's own body, which the endpoint never reads: (bytes, more_body) messages
        upload=rng.choice([None, None, None, [["", False]], [["ab", True], ["", False]], [["ab", True], ["cd", True], ["ef", True], ["gh", False]], [["ab", True]], [["", True], ["", True]], [["x", True]] * 12 + [["", False]]]),
    )


def run(case, mon):
    if tuple(map(int, (case["spec"] or "2.0").split("."))) >= (2, 4) and case["fault"]:
        # a server implementing ASGI 2.4 reports a disconnect by failing send()
        if case["fault"][0] == "disc":
            case = dict(case, fault=["send", case["fault"][1]])
        elif case["fault"][0] == "discrecv":
            case = dict(case, endless=False)
    if case["endless"]:
        case = dict(case, jit=max(1, case["jit"]))  # a server that never yields could not notice a disconnect
    values, wire = [], []
    for t, c in case["chunks"]:
        if t == "s":
            values.append(c)
            wire.append(c.encode("utf-8"))
        else:
            b = mk(c) if not isinstance(c, str) else c.encode("utf8")
            values.append(memoryview(b) if t == "m" else b)
            wire.append(b)
    fault = case["fault"]
    log = []  # (event, ...) shared between producer and server, single total order
    raise_at = fault[1] if fault and fault[0] == "iter" else None
    loop_thread = threading.get_ident()
    state = {"pulled": 0, "after_disc": 0, "sends_at_pull": [], "overrun": False, "threads": set()}
    server_log = {}

    def pull(i):
        state["pulled"] += 1
        state["sends_at_pull"].append(sum(1 for k, m in server_log["t"] if k == "sent" and m["type"] == "http.response.body"))
        state["threads"].add(threading.get_ident() == loop_thread)
        if server_log["gone"]():
            state["after_disc"] += 1

    def total():
        i = 0
        while True:
            if raise_at is not None and i == raise_at:
                pull(i)
                raise (Boom, DiskBoom)[case["seed"] % 2]("iterator failed")
            if i < len(values):
                pull(i)
                yield values[i]
            elif case["endless"]:
                if state["after_disc"] > 300:
                    state["overrun"] = True
                    return
                pull(i)
                yield b"endless"
            else:
                return
            i += 1

    pj = Jit(case["seed"] + 1, case["pj"])

    async def atotal():
        for v in total():
            await pj()
            yield v

    kind = case["kind"]
    content = {"agen": atotal, "aiter": lambda: AIter(atotal()), "gen": total, "iterable": lambda: SyncIter(total()), "list": lambda: list(values)}[kind]()
    headers = {k: v.replace("@", str(sum(map(len, wire)))) for k, v in case["headers"]} if case["headers"] else None
    resp = StreamingResponse(content, headers=headers, media_type="text/plain")

    async def endpoint(request):
        return resp

    rt = Route("/", endpoint, methods=["GET", "POST"])

    app = {"raw": lambda: resp, "app": lambda: Starlette(routes=[rt]), "mount": lambda: Starlette(routes=[Mount("/m", routes=[rt])])}[case["via"]]()
    scope = http_scope(path="/m/" if case["via"] == "mount" else "/")
    if case["spec"] is None:
        scope["asgi"] = {"version": "3.0"}
    else:
        scope["asgi"]["spec_version"] = case["spec"]
    spec = tuple(map(int, (case["spec"] or "2.0").split(".")))
    kw = {}
    if fault and fault[0] == "disc":
        kw["disconnect_after_sends"] = fault[1]
    if fault and fault[0] == "discrecv":
        kw["disconnect_on_recv"] = fault[1]
    if fault and fault[0] == "send":
        kw["send_error_at"] = fault[1]

    # wrap the app to observe the instant a send is *accepted*
    accepted = []
    gone = {"v": False}
    server_log["t"] = accepted
    server_log["gone"] = lambda: gone["v"]

    async def probed(scope, receive, send):
        async def rec():
            m = await receive()
            if m["type"] == "http.disconnect":
                gone["v"] = True
            return m

        async def snd(m):
            await send(m)
            accepted.append(("sent", m))

        await app(scope, rec, snd)

    up = case.get("upload")
    if up:
        scope["method"] = "POST"
        kw["chunks"] = [(b.encode(), more) for b, more in up]
        mon.n("unread uploads")
    t = drive(probed, scope, backend=case["backend"], seed=case["seed"], jitter=case["jit"], **kw)
    no_leaks(t, mon)
    http_protocol(t, mon, expect_complete=not fault, check_length=not fault)
    bodies = [bytes(b) for b in t.chunks]
    send_failed = fault and fault[0] == "send" and kw["send_error_at"] < len(t.sent)
    full = wire + [b"endless"] * 100000 if case["endless"] else wire
    for i, s in enumerate(state["sends_at_pull"]):
        if s < i:
            mon.fail("not-lazy", f"chunk {i} was requested when only {s} chunks had been accepted by the server")
            break
    if kind in ("gen", "iterable") and True in state["threads"]:
        mon.fail("blocking-iterator", "a synchronous iterator was advanced on the event loop's thread")
    mon.n("chunks pulled", state["pulled"])
    complete = t.complete
    payload = bodies[:-1] if complete else bodies
    if complete:
        mon.eq(bodies[-1], b"", "final-message", "the final body message")
    if not send_failed:
        n = len(payload)
        if payload != full[:n]:
            mon.fail("chunks", f"chunk messages {[c[:40] for c in payload][:10]} differ from the produced ones {[c[:40] for c in full[:n]][:10]}")
        mon.n("chunks delivered", n)
        if fault is None or (raise_at is not None and raise_at > len(values)):
            mon.eq(n, len(wire), "all-chunks", "number of chunk messages")
    if t.start is not None and not headers:
        mon.eq(t.header("content-length"), None, "content-length", "content-length")
    if fault is None:
        if t.exc:
            raise t.exc
        mon.ok(complete, "incomplete", "the response was not completed")
    elif raise_at is not None and raise_at <= len(values):
        mon.ok(isinstance(t.exc, Boom), "iterator-error", f"the iterator's error did not propagate: {t.exc!r}")
        mon.ok(not complete, "complete-after-error", "the body was marked complete although the iterator failed")
        mon.eq(len(payload), raise_at, "chunks-before-error", "chunks sent before the iterator failed")
        mon.n("iterator errors")
    elif send_failed:
        mon.n("send failures")
        mon.eq(len(t.sent), kw["send_error_at"] + 1, "send-after-failure", "messages sent (nothing may follow the failed one)")
        if spec >= (2, 4):
            mon.ok(type(t.exc) is ClientDisconnect, "client-disconnect", f"send failed on ASGI {spec}, application ended with {t.exc!r}")
        else:
            mon.ok(isinstance(t.exc, OSError), "oserror", f"send failed on ASGI {spec}, application ended with {t.exc!r}")
        mon.eq(payload, full[: len(payload)], "chunks", "chunk messages")
    elif fault[0] in ("disc", "discrecv") and spec < (2, 4):
        if t.exc:
            raise t.exc
        if case["endless"]:
            mon.ok(not state["overrun"], "endless", "more than 300 chunks were pulled after the client had disconnected")
            mon.ok(not complete, "complete-after-disconnect", "an interrupted body was marked complete")
            mon.n("disconnects stopped an endless stream")
    elif fault[0] in ("disc", "discrecv"):
        # a 2.4 server reports disconnects through send(); without that the stream runs to its end
        if t.exc:
            raise t.exc
    mon.nontrivial(kind, fault and fault[0], spec, len(wire), case["endless"], case["via"], complete) if state["pulled"] or fault or kind == "list" else None
