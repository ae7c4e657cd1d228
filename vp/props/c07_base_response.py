from __future__ import annotations

import anyio

from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse

from vp import gens
from vp.asgi import Jit, drive, hdr, http_protocol, http_scope, no_leaks, ws_scope
from vp.engine import mk

ID = "C07"
PROP = dict(
    title="BaseHTTPMiddleware relays responses and exceptions faithfully",
    statement=(
        "For any stack of BaseHTTPMiddleware around any application, a dispatch that returns call_next's response delivers the application's "
        "status, headers (all, in order) and body bytes unchanged apart from what dispatch itself edits, incrementally rather than buffered, and a dispatch that returns its own response "
        "delivers exactly that one. An exception the application raises before starting its response is raised from call_next, where dispatch may handle it once and for all; "
        "if it is unhandled, or raised after the start, the very same exception reaches the server, a body the application left unfinished because of it is never "
        "marked complete, and a finished one stays intact. The application runs at most once per call_next, is never left running after the middleware returned, a failing or departed client cannot make the stack hang, "
        "and non-HTTP scopes pass straight through."
    ),
    over=["programs", "schedules", "fault_sequences"],
    quant="every message script of the wrapped application, every dispatch behaviour at every depth of the stack, exception points, failing sends, injected scheduling, asyncio and trio",
    why="tests check single scripted applications under one schedule; relaying goes through task groups and streams whose interleavings they do not vary",
    files=["starlette/middleware/base.py", "starlette/_utils.py"],
    mechanism=[("call_next / send and receive streams / task group", "starlette/middleware/base.py:BaseHTTPMiddleware"), ("collapse_excgroups", "starlette/_utils.py")],
)
TECH = "runtime monitoring: differential trace checking of scripted applications against an executable model of the middleware stack"
RULE = "each case is a scripted ASGI application plus a stack of 1-4 dispatch behaviours, a schedule and a fault; non-trivial when the relayed outcome (response and/or exception) was compared with the model"
LEVEL_NOTE = "held on the generated scripts, stacks and schedules; leaked tasks and hangs are monitored on every execution"
BUDGET = {"quick": (60000, 20), "thorough": (900000, 300)}
REQUIRED = ("relayed responses", "exceptions before start", "exceptions after start", "handled exceptions", "server send failures", "passthrough scopes", "incremental chunks")


class Boom(Exception):
    pass


class DispatchError(Exception):
    pass


class Lost(OSError):
    pass


MODES = ["pass", "pass", "pass", "header", "catch", "short", "replace", "raise_before", "raise_after", "wrap", "status", "subclass"]


def fixed(tier):
    out = []
    scripts = [
        [["start", 200, [["x-a", "1"], ["x-a", "2"]]], ["body", "one", True], ["body", "two", True], ["body", "", False]],
        [["start", 204, []], ["nobody"]],
        [["raise"]],
        [["yield"], ["raise"]],
        [["start", 200, []], ["raise"]],
        [["start", 200, []], ["body", "part", True], ["raise"]],
        [["start", 200, []], ["body", "part", True], ["body", "end", False], ["raise"]],
        [["start", 200, []], ["body", "all", False], ["yield"], ["yield"], ["mark"]],
        [["start", 200, []], ["body", "again", True], ["body", "again", True], ["body", "again", True], ["body", "again", False]],
        [["debug"], ["start", 200, []], ["body", "all", False]],
    ]
    for s in scripts:
        for modes in (["pass"], ["catch"], ["replace"], ["raise_after"], ["header", "pass"], ["pass", "catch"], ["catch", "pass"], ["replace", "pass"], ["pass", "replace"], ["wrap"], ["pass", "pass", "pass"]):
            for be in ("asyncio", "trio"):
                out.append(dict(script=s, modes=modes, jit=1, seed=3, backend=be, fail=None, scope="http"))
    for sc in ("websocket", "lifespan"):
        out.append(dict(script=scripts[0], modes=["short", "catch"], jit=0, seed=0, backend="asyncio", fail=None, scope=sc))
    return out


def gen(rng, tier):
    script = []

    def pause():
        if rng.random() < 0.3:
            script.append(["yield"])

    fail_at = rng.choice(["none", "none", "none", "before", "start", "mid", "after"])
    if rng.random() < 0.15:
        script.append(["recv"])
    if rng.random() < 0.1:
        script.append(["debug"])
    pause()
    if fail_at == "before":
        script.append(["raise"])
    else:
        hs, n = [], rng.choice([0, 1, 3])
        for _ in range(n):
            hs.append([rng.choice(["x-a", "x-b", "set-cookie", gens.token(rng).lower()]), gens.header_value(rng)])
        script.append(["start", rng.choice([200, 200, 201, 204, 304, 404, 500]), hs])
        pause()
        if fail_at == "start":
            script.append(["raise"])
        else:
            for _ in range(rng.choice([0, 1, 2, 5, 20])):
                script.append(list(rng.choice(script)) if script[-1][0] == "body" and rng.random() < 0.2 else ["body", gens.body_spec(rng, big=rng.random() < 0.05), True])
                if script[-1][0] != "body":
                    script.pop()
                pause()
            if fail_at == "mid":
                script.append(["raise"])
            else:
                script.append(rng.choice([["body", gens.body_spec(rng, big=False), False], ["body", "", False], ["nobody"], ["nomore", "tail"]]))
                pause()
                if fail_at == "after":
                    script.append(["raise"])
                else:
                    script.append(["mark"])
    return dict(
        script=script,
        modes=[rng.choice(MODES) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))],
        jit=rng.choice([0, 1, 2]),
        seed=rng.randrange(10**6),
        backend=rng.choice(["asyncio", "asyncio", "trio"]),
        fail=rng.choice([None] * 5 + [rng.randrange(0, 6)]),
        scope=rng.choice(["http"] * 20 + ["websocket", "lifespan"]),
    )


def outcome_of_script(script):
    o = dict(started=False, status=None, headers=[], body=b"", complete=False, exc=None, own=False)
    for op in script:
        if op[0] == "start":
            o.update(started=True, status=op[1], headers=[tuple(h) for h in op[2]])
        elif op[0] == "body":
            o["body"] += mk(op[1])
            if not op[2]:
                o["complete"] = True
        elif op[0] == "nobody":
            o["complete"] = True
        elif op[0] == "nomore":
            o["body"] += mk(op[1])
            o["complete"] = True
        elif op[0] == "raise":
            o["exc"] = "Boom"
            break
    return o


def plain(text, status):
    b = text.encode()
    return [("content-length", str(len(b))), ("content-type", "text/plain; charset=utf-8")], b


def model(script, modes):
    """Outcome after applying the stack; modes[-1] is the innermost. Also: how often each layer's inner app is invoked."""
    o = outcome_of_script(script)
    layers = list(enumerate(modes))
    for i, mode in reversed(layers):
        before = not o["started"]
        if mode == "short":
            h, b = plain(f"short{i}", 299)
            o = dict(started=True, status=299, headers=h, body=b, complete=True, exc=None, own=True)
        elif mode == "raise_before":
            o = dict(started=False, status=None, headers=[], body=b"", complete=False, exc="DispatchError", own=False)
        elif before:
            # nothing was started: call_next raises
            if mode == "catch" and o["exc"]:
                h, b = plain(f"caught{i}", 555)
                o = dict(started=True, status=555, headers=h, body=b, complete=True, exc=None, own=True)
        elif mode == "raise_after":
            o = dict(started=False, status=None, headers=[], body=b"", complete=False, exc="DispatchError", own=False)
        elif mode == "replace":
            h, b = plain(f"replaced{i}", 298)
            o = dict(started=True, status=298, headers=h, body=b, complete=True, exc=o["exc"], own=True)
        elif mode in ("header", "subclass"):
            o = dict(o, headers=o["headers"] + [(f"x-mw-{i}", "yes")])
        elif mode == "status":
            o = dict(o, status=297)
        elif mode == "wrap":
            o = dict(o, body=o["body"].swapcase())
    return o


def run(case, mon):
    jit = Jit(case["seed"] + 5, case["jit"])
    runs = {"app": 0, "end": 0}
    info = {"debug": 0}
    boom = Boom("from the application")
    sent_by_app = []
    accepted = [0]
    relaying = not set(case["modes"]) & {"short", "replace", "raise_before", "raise_after"} and case["fail"] is None

    def on_accept(m):
        if m["type"] == "http.response.body" and m.get("body"):
            accepted[0] += 1

    constant = {}

    def same(m):
        """An application may send the very same message object again."""
        return constant.setdefault(repr(sorted(m.items())), m)

    async def scripted(scope, receive, send):
        runs["app"] += 1
        try:
            for op in case["script"]:
                await jit()
                if op[0] == "start":
                    await send({"type": "http.response.start", "status": op[1], "headers": hdr(op[2])})
                elif op[0] == "body":
                    b = mk(op[1])
                    if b and relaying:
                        lag = len([1 for x in sent_by_app if x]) - accepted[0]
                        if lag > 2 * len(case["modes"]) + 2:
                            mon.fail("buffered", f"the application has had {len(sent_by_app)} chunks taken, the server has been given {accepted[0]}")
                    await send(same({"type": "http.response.body", "body": b, "more_body": op[2]}))
                    sent_by_app.append(bool(b))
                elif op[0] == "nobody":
                    await send({"type": "http.response.body"})
                elif op[0] == "nomore":
                    await send({"type": "http.response.body", "body": mk(op[1])})
                elif op[0] == "debug":
                    await send({"type": "http.response.debug", "info": {"k": "v"}})
                elif op[0] == "yield":
                    await anyio.sleep(0)
                elif op[0] == "recv":
                    await receive()
                elif op[0] == "mark":
                    pass
                elif op[0] == "raise":
                    raise boom
        finally:
            runs["end"] += 1

    entered, left = [], []
    caught = []

    def dispatcher(i, mode):
        async def dispatch(request, call_next):
            entered.append(i)
            try:
                await jit()
                if mode == "short":
                    return PlainTextResponse(f"short{i}", 299)
                if mode == "raise_before":
                    raise DispatchError(i)
                if mode == "catch":
                    try:
                        response = await call_next(request)
                    except Exception as exc:
                        caught.append(exc)
                        return PlainTextResponse(f"caught{i}", 555)
                else:
                    response = await call_next(request)
                await jit()
                if mode == "raise_after":
                    raise DispatchError(i)
                if mode == "replace":
                    return PlainTextResponse(f"replaced{i}", 298)
                if mode in ("header", "subclass"):
                    response.headers[f"x-mw-{i}"] = "yes"
                if mode == "status":
                    response.status_code = 297
                if mode == "wrap":
                    it = response.body_iterator

                    async def swap():
                        async for c in it:
                            yield c.swapcase()

                    response.body_iterator = swap()
                return response
            finally:
                left.append(i)

        return dispatch

    app = scripted
    for i, mode in reversed(list(enumerate(case["modes"]))):
        if mode == "subclass":
            class Sub(BaseHTTPMiddleware):
                fn = staticmethod(dispatcher(i, mode))

                async def dispatch(self, request, call_next):
                    return await type(self).fn(request, call_next)

            app = Sub(app)
        else:
            app = BaseHTTPMiddleware(app, dispatch=dispatcher(i, mode))

    if case["scope"] != "http":
        # everything must pass straight through to the application
        mon.n("passthrough scopes")
        seen = []

        async def inner(scope, receive, send):
            seen.append((scope, receive, send))

        top = inner
        for i, mode in reversed(list(enumerate(case["modes"]))):
            top = BaseHTTPMiddleware(top, dispatch=dispatcher(i, mode))
        sc = ws_scope() if case["scope"] == "websocket" else {"type": "lifespan", "asgi": {"version": "3.0"}}
        t = drive(top, sc, backend=case["backend"])
        if t.exc:
            raise t.exc
        mon.eq(entered, [], "dispatch-on-other-scope", "dispatch functions called")
        mon.ok(len(seen) == 1 and seen[0][0] is sc, "scope-passthrough", "the application did not get the original scope exactly once")
        mon.nontrivial(case["scope"])
        return

    want = model(case["script"], case["modes"])
    t = drive(app, http_scope(), backend=case["backend"], seed=case["seed"], jitter=case["jit"], send_error_at=case["fail"], send_error=Lost, on_accept=on_accept)
    no_leaks(t, mon)
    http_protocol(t, mon, expect_complete=False, check_length=False)
    mon.eq(runs["app"], runs["end"], "app-left-running", "runs of the application that ended")
    # layers are entered outside-in and left inside-out, and only as deep as the stack calls through
    depth = next((i for i, m in enumerate(case["modes"]) if m in ("short", "raise_before")), None)
    expect_entered = list(range(len(case["modes"]))) if depth is None else list(range(depth + 1))
    mon.eq(runs["app"], 1 if depth is None else 0, "app-runs", "how often the application ran")
    mon.eq(entered, expect_entered, "dispatch-order", "layers entered")
    mon.eq(sorted(left), sorted(entered), "dispatch-left", "layers left")
    failed = case["fail"] is not None and case["fail"] < len(t.sent)
    real_headers = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in t.headers] if t.start else []
    for exc in caught:
        mon.ok(exc is boom or isinstance(exc, DispatchError), "caught-identity", f"dispatch caught {exc!r}")
    if failed:
        mon.n("server send failures")
        mon.eq(len(t.sent), case["fail"] + 1, "send-after-failure", "messages offered to the server")
        ok = isinstance(t.exc, (Lost, Boom, DispatchError)) if want["exc"] else isinstance(t.exc, Lost)
        mon.ok(ok, "send-failure-propagates", f"the server's send failure ended as {t.exc!r}")
        mon.nontrivial("sendfail", case["modes"], case["fail"])
        return
    name = type(t.exc).__name__ if t.exc is not None else None
    mon.eq(name, want["exc"], "exception", "exception that reached the server")
    if name == "Boom":
        mon.ok(t.exc is boom, "exception-identity", "a different exception object reached the server")
    mon.eq(t.start is not None, want["started"], "started", "response started")
    if want["started"] and t.start is not None:
        mon.eq(t.status, want["status"], "status", "status")
        mon.eq(sorted(real_headers) if want["own"] else real_headers, sorted(want["headers"]) if want["own"] else want["headers"], "headers", "headers")
        if want["complete"]:
            mon.eq(t.body, want["body"], "body", "body")
        else:
            mon.eq(t.body, want["body"], "partial-body", "bytes sent before the application failed")
        mon.eq(t.complete, want["complete"], "complete", "body marked complete")
        mon.n("relayed responses")
        if not want["own"] and "replace" not in case["modes"]:
            # streaming: non-empty chunks are relayed one by one, not joined
            chunks = [c for c in (mk(op[1]) for op in case["script"] if op[0] in ("body", "nomore")) if c]
            got = [bytes(c) for c in t.chunks if c]
            if "wrap" in case["modes"] and case["modes"].count("wrap") % 2:
                chunks = [c.swapcase() for c in chunks]
            mon.eq(got, chunks, "chunks", "chunk boundaries")
            mon.n("incremental chunks", len(chunks))
    if case["script"][0][0] == "debug" and want["started"] and not want["own"]:
        mon.eq([m.get("info") for m in t.sent if m["type"] == "http.response.debug"], [{"k": "v"}], "debug", "debug messages relayed")
    if want["exc"]:
        mon.n("exceptions after start" if want["started"] else "exceptions before start")
    if caught:
        mon.n("handled exceptions")
    mon.nontrivial(case["modes"], [op[0] for op in case["script"]][:8], want["exc"], case["backend"])
