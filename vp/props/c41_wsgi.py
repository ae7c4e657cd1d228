from __future__ import annotations

import random
import sys
import threading
import warnings

import anyio

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from starlette.middleware.wsgi import WSGIMiddleware
from starlette.applications import Starlette
from starlette.requests import ClientDisconnect
from starlette.routing import Mount

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, chunking, hdr, http_protocol, http_scope, no_leaks, run_async, split_body

ID = "C41"
PROP = dict(
    title="WSGI applications see the request and answer it faithfully",
    statement=(
        "For every request, message division and mount, a WSGI application under WSGIMiddleware is called once, off the event loop, with an environ that states that request - method, script name and path, query, server, client address, every header, the whole body readable from wsgi.input - and the ASGI response is exactly its status, headers in order and body chunks in order, complete once the iterable is exhausted. "
        "The iterable is closed exactly once whatever happens; an exception it raises, or reports through exc_info, propagates and a body cut short by it is never marked as complete; an upload the client aborted is never run as if it were complete; concurrent requests share nothing."
    ),
    over=["inputs", "schedules", "fault_sequences"],
    quant="every request, body division, response shape, failure point, disconnect or send error, mount depth and interleaving",
    why="tests run a few fixed applications with one message each",
    files=["starlette/middleware/wsgi.py"],
    mechanism=[("environ", "starlette/middleware/wsgi.py:build_environ"), ("response", "starlette/middleware/wsgi.py:WSGIResponder")],
)
TECH = "runtime monitoring: a recording WSGI application compared with an independent model of the environ, a trace monitor on the ASGI side and counters on the iterable, with faults and interleavings injected"
RULE = "each case is 1-4 concurrent requests to a WSGI application with a response plan and a fault; non-trivial when environ and response were compared"
LEVEL_NOTE = "held on the generated requests; write(), reasonless status lines, start_response called again before the body, and repeated request headers of the same name beyond their joining are left out"
BUDGET = {"quick": (40000, 8), "thorough": (400000, 90)}
REQUIRED = ("environs compared", "responses compared", "closed iterables", "failures", "exc_info failures", "aborted uploads", "send errors", "mounted", "concurrent", "non-ascii", "optional keys left out")


class Boom(Exception):
    pass


def fixed(tier):
    out = []
    i = 0
    for exc in (None, "call", "start", "iter0", "iter1", "end", "exc_info"):
        for shape in ("list", "gen", "iter-close", "empty", "tuple"):
            for backend in ("asyncio", "trio"):
                i += 1
                out.append(dict(reqs=[dict(method="POST", path="/a/é", mount=["", "/m", "/x/é"][i % 3], root="", query="a=b", headers=[["x-a", "1"], ["content-type", "text/plain"], ["content-length", "9"]], body="some body", chunk="few", resp=dict(status="201 Created", headers=[["X-B", "2"], ["set-cookie", "a"], ["Set-Cookie", "b"]], chunks=["one", "", "two"], shape=shape, exc=exc))], fault=None, at=0, backend=backend, seed=i, jit=1))
    return out


def gen(rng, tier):
    reqs = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        hs = []
        for _ in range(rng.randrange(0, 5)):
            hs.append([rng.choice(["x-a", "x-b-c", "accept", "cookie", "content-type", "content-length", "x-a"]), rng.choice(["1", "", "a, b", "é", "text/plain", gens.token(rng)])])
        body = rng.choice(["", "x", "body\x00é", "b" * 5000, "z" * 100000])
        reqs.append(
            dict(
                method=rng.choice(["GET", "POST", "HEAD", "PUT", "PURGE"]), path="/" + gens.text(rng, 0, 8).replace("\u2028", ""), mount=rng.choice(["", "", "/m", "/m/n", "/é"]), root=rng.choice(["", "", "/root", "/r/ö"]), query=rng.choice(["", "a=b", "a=%C3%A9&a=c", "=&&", "q=\u00e9", "q=\u00c3\u00a9&\u00ff=%20", "\u0080"]), headers=hs, body=body,
                chunk=rng.choice(["one", "few", "blocks", "empties", "bytes"]),
                resp=dict(status=rng.choice(["200 OK", "201 Created", "404 Not Found", "204 No Content", "500 Internal Server Error", "299 A long reason: with colons"]), headers=[[gens.header_name(rng), gens.header_value(rng)] for _ in range(rng.randrange(0, 5))], chunks=[rng.choice(["", "x", "chunk", "é\x00", "y" * 3000]) for _ in range(rng.randrange(0, 6))], shape=rng.choice(["list", "gen", "iter-close", "tuple", "late"]), exc=rng.choice([None] * 7 + ["call", "start", "iter0", "iter1", "end", "exc_info"])),
            )
        )
    return dict(reqs=reqs, fault=rng.choice([None] * 5 + ["abort", "send-error", "send-error"]), at=rng.randrange(0, 5), backend=gens.backend(rng), seed=rng.randrange(10**6), jit=rng.choice([0, 1, 2]))


class Closing:
    def __init__(self, chunks, rec, exc):
        self.chunks, self.rec, self.exc, self.i = chunks, rec, exc, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.exc == "iter0" and self.i == 0 or self.exc == "iter1" and self.i == 1:
            self.rec["raised"] = True
            raise Boom("iter")
        if self.i >= len(self.chunks):
            if self.exc in ("end", "iter1"):
                self.rec["raised"] = True
                raise Boom("end")
            raise StopIteration
        self.i += 1
        return self.chunks[self.i - 1]

    def close(self):
        self.rec["closed"] += 1


def run(case, mon):
    loop_thread = threading.get_ident()
    recs = {}

    def wsgi(environ, start_response):
        n = int(environ["HTTP_X_N"])
        r = case["reqs"][n]
        resp = r["resp"]
        rec = recs.setdefault(n, dict(calls=0, closed=0))
        rec["calls"] += 1
        rec["thread"] = threading.get_ident()
        rec["environ"] = {k: v for k, v in environ.items() if k != "wsgi.input"}
        data = b""
        inp = environ["wsgi.input"]
        while True:
            c = inp.read(1000) if case["seed"] % 2 else inp.read()
            data += c
            if not c:
                break
        rec["body"] = data
        exc = resp["exc"]
        if exc == "call":
            rec["raised"] = True
            raise Boom("call")
        chunks = [c.encode("latin-1") for c in resp["chunks"]]
        headers = [(k, v) for k, v in resp["headers"]]
        if exc == "exc_info":
            try:
                raise Boom("info")
            except Boom:
                rec["raised"] = True
                start_response(resp["status"], headers, sys.exc_info())
        elif resp["shape"] != "late":
            start_response(resp["status"], headers)
        if exc == "start":
            rec["raised"] = True
            raise Boom("start")
        body = Closing(chunks, rec, exc)
        if resp["shape"] in ("list", "tuple") and exc in (None, "exc_info"):
            rec["noclose"] = True
            return chunks if resp["shape"] == "list" else tuple(chunks)
        if resp["shape"] in ("gen", "late"):

            def g():
                if resp["shape"] == "late" and exc != "exc_info":
                    start_response(resp["status"], headers)
                try:
                    yield from body
                finally:
                    body.close()

            rec["generator"] = True
            return g()
        return body

    traces = []
    kw = {}
    if case["fault"] == "abort":
        kw = dict(disconnect_on_recv=case["at"])
    elif case["fault"] == "send-error":
        kw = dict(send_error_at=case["at"])

    async def main():
        async def one(n, r):
            hs = [("x-n", str(n))] + [tuple(h) for h in r["headers"]]
            app = WSGIMiddleware(wsgi) if not r["mount"] else Starlette(routes=[Mount(r["mount"], app=WSGIMiddleware(wsgi))])
            body = r["body"].encode("latin-1")
            msgs = split_body(body, chunking(random.Random(case["seed"]), len(body), r["chunk"]))
            t = Trace()
            # a server need not name itself, the scheme or the client, nor repeat what is empty in its messages
            leave = case["seed"] % 4 == 1
            side = ServerSide(t, msgs, Jit(case["seed"] + n, case["jit"]), **kw)
            if leave:
                side.queue = [dict({"type": "http.request"}, **({"body": c} if c else {}), **({"more_body": True} if more else {})) for c, more in msgs]
            scope = http_scope(r["method"], r["root"] + r["mount"] + r["path"], hs, r["query"], root_path=r["root"], scheme=["http", "https"][n % 2], server=("srv%d" % n, 8000 + n), client=("10.0.0.%d" % n, 1))
            if leave:
                mon.n("optional keys left out")
                for k in ("server", "scheme", "client"):
                    del scope[k]
            elif case["seed"] % 4 == 2:
                scope["server"] = scope["client"] = None
            traces.append((n, r, t, len(msgs)))
            await call_app(app, scope, side, t)

        async with anyio.create_task_group() as tg:
            for n, r in enumerate(case["reqs"]):
                tg.start_soon(one, n, r)

    _, errors = run_async(case["backend"], case["seed"], main)
    mon.ok(not errors, "loop-error", f"{errors}")
    if len(traces) > 1:
        mon.n("concurrent")
    for n, r, t, nmsgs in traces:
        rec = recs.get(n)
        resp = r["resp"]
        leaves = flatten(t.exc) if t.exc is not None else []
        if case["fault"] == "abort" and case["at"] < nmsgs:
            mon.n("aborted uploads")
            mon.ok(rec is None, "ran-aborted-upload", f"the client left after {case['at']} of {nmsgs} messages, and the application was run with {rec and rec.get('body')[:50]!r}")
            mon.nontrivial("abort", case["at"], nmsgs)
            continue
        if not mon.ok(rec is not None and rec["calls"] == 1, "calls", f"the WSGI application was called {rec and rec['calls']} times ({t.exc!r})"):
            continue
        mon.ok(rec["thread"] != loop_thread, "on-the-loop", "the WSGI application ran on the event loop's thread")
        env = rec["environ"]
        sn = (r["root"] + r["mount"]).encode("utf8").decode("latin-1")
        want = {
            "REQUEST_METHOD": r["method"], "SCRIPT_NAME": sn, "PATH_INFO": r["path"].encode("utf8").decode("latin-1"), "QUERY_STRING": r["query"], "SERVER_PROTOCOL": "HTTP/1.1",
            "wsgi.url_scheme": ["http", "https"][n % 2], "SERVER_NAME": "srv%d" % n, "REMOTE_ADDR": "10.0.0.%d" % n, "HTTP_X_N": str(n), "wsgi.version": (1, 0), "wsgi.run_once": False,
        }
        port = 8000 + n
        if case["seed"] % 4 in (1, 2):
            # PEP 3333: never empty
            want.pop("SERVER_NAME")
            mon.ok(env.get("SERVER_NAME") and str(env.get("SERVER_PORT", "")).isdigit(), "environ", f"server name {env.get('SERVER_NAME')!r}, port {env.get('SERVER_PORT')!r}")
            port = env.get("SERVER_PORT")
            want["REMOTE_ADDR"] = None
            if case["seed"] % 4 == 1:
                want["wsgi.url_scheme"] = "http"
        for k, v in r["headers"]:
            name = {"content-type": "CONTENT_TYPE", "content-length": "CONTENT_LENGTH"}.get(k, "HTTP_" + k.upper().replace("-", "_"))
            want[name] = want[name] + "," + v if name in want else v
        for k, v in want.items():
            mon.eq(env.get(k), v, "environ", f"environ[{k!r}]")
        mon.eq(str(env.get("SERVER_PORT")), str(port), "environ", "port")
        extra = [k for k in env if k.startswith("HTTP_") and k not in want]
        mon.ok(not extra, "environ", f"unsent headers {extra}")
        mon.ok(rec["body"] == r["body"].encode("latin-1"), "body", f"wsgi.input gave {len(rec['body'])} bytes, the client sent {len(r['body'])}")
        mon.n("environs compared")
        if r["mount"]:
            mon.n("mounted")
        if any(ord(c) > 127 for c in r["path"]):
            mon.n("non-ascii")
        started = resp["exc"] not in ("call",) and not (resp["exc"] == "start" and resp["shape"] == "late")
        if not rec.get("noclose") and resp["exc"] not in ("call", "start"):
            if not (rec.get("generator") and case["fault"] == "send-error"):  # a generator that never ran has nothing to finish
                mon.n("closed iterables")
                mon.ok(rec["closed"] == 1, "closed", f"close() of the iterable was called {rec['closed']} times ({resp['shape']}, {resp['exc']}, {case['fault']})")
        http_protocol(t, mon, method=r["method"], expect_complete=case["fault"] is None, check_length=False)
        mon.nontrivial(r["method"], resp["shape"], resp["exc"], case["fault"], len(resp["chunks"]))
        if case["fault"] == "send-error":
            mon.n("send errors")
            if t.exc is not None:
                mon.ok(all(isinstance(e, (Boom, OSError, anyio.BrokenResourceError)) for e in leaves), "foreign-exception", f"{t.exc!r}")
            continue
        if resp["exc"]:
            mon.n("failures")
            if resp["exc"] == "exc_info":
                mon.n("exc_info failures")
            mon.ok(len(leaves) == 1 and isinstance(leaves[0], Boom), "exception", f"the application raised and the middleware {t.exc!r}")
            if resp["exc"] != "exc_info" and not started and r["mount"]:
                mon.ok(t.status == 500 and t.complete, "unanswered", f"{t.sent[:2]}")
                continue
            if resp["exc"] != "exc_info":
                mon.ok(not t.complete, "completed-after-failure", f"a body cut short by an exception was marked as complete: {t.sent[-2:]}")
                continue
        elif not mon.ok(t.exc is None, "foreign-exception", f"{t.exc!r}"):
            continue
        mon.n("responses compared")
        mon.eq(t.status, int(resp["status"][:3]), "status", "status")
        mon.eq(t.headers, [(k.lower().encode(), v.strip().encode("latin-1")) for k, v in resp["headers"]], "headers", "headers")
        chunks = [c for c in t.chunks if c]
        mon.eq(chunks, [c.encode("latin-1") for c in resp["chunks"] if c], "chunks", "body chunks")
        mon.ok(t.complete, "incomplete", "the body was not completed")


def flatten(exc):
    if isinstance(exc, BaseExceptionGroup):
        return [x for e in exc.exceptions for x in flatten(e)]
    return [exc]
