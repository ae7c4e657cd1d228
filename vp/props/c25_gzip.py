from __future__ import annotations

import gzip
import random
import zlib

import anyio

from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, Response, StreamingResponse

from vp import gens
from vp.asgi import chunking, drive, hdr, http_protocol, http_scope, no_leaks, split_body, ws_scope
from vp.engine import mk
from vp.props.c13_routing import drive_any

ID = "C25"
PROP = dict(
    title="GZip compression never changes what the client receives",
    statement=(
        "For every response, message chunking, request and GZipMiddleware setting, decoding the delivered body as its Content-Encoding says gives exactly the bytes the application sent, with the same status and other headers, a Content-Length only if it is the true one, and the exceptions the application raised. "
        "Compression is applied exactly when the client accepts gzip, the response is streamed or has at least minimum_size bytes, and it is neither already encoded nor an event stream - those, and small responses, pass through message by message - and whenever it was or would have been applied Vary includes Accept-Encoding. "
        "Requests do not affect each other and other scopes pass through."
    ),
    over=["inputs", "programs", "schedules"],
    quant="every body and chunk layout (empty, incompressible, around minimum_size), response header set, Accept-Encoding, compression level, exception point, sequence of requests to one middleware",
    why="tests compress one repetitive body",
    files=["starlette/middleware/gzip.py", "starlette/datastructures.py"],
    mechanism=[("IdentityResponder / GZipResponder", "starlette/middleware/gzip.py"), ("add_vary_header", "starlette/datastructures.py:MutableHeaders")],
)
TECH = "runtime monitoring: differential trace checking (with and without the middleware) with an independent gzip decoder"
RULE = "each case is a response script and 3 requests; non-trivial when delivered bodies were decoded and compared"
LEVEL_NOTE = "held on the generated scripts; minimum_size 0 with body-less statuses is left out"
BUDGET = {"quick": (60000, 10), "thorough": (500000, 150)}
REQUIRED = ("requests", "compressed", "compressed streams", "too small", "already encoded", "event streams", "not accepted", "exceptions relayed", "other scopes", "at the minimum size", "responses reused")

ACCEPT = [(None, False), ("", False), ("gzip", True), ("gzip, deflate, br", True), ("br;q=1.0, gzip;q=0.8, *;q=0.1", True), ("deflate", False), ("identity", False), ("br", False), ("deflate,gzip", True), ("gzip;q=0.001", True), ("gzip;q=1", True), ("deflate, gzip;q=1.0", True),
          ("gzip;q=0", False), ("gzip;q=0.0, deflate", False), ("identity, gzip; q=0.000", False), ("notgzip", False), ("gzip2, br", False), ("br, gzip ;q=0.5", True)]
CTYPES = ["text/plain", "text/html; charset=utf-8", "application/json", "image/png", None, "text/event-streams-not", "application/octet-stream", "text/event-stream", "text/event-stream; charset=utf-8"]


def fixed(tier):
    out = []
    for ms in (500, 1, 1000):
        for n in (0, 1, ms - 1, ms, ms + 1, 4096, 70000):
            for spec in (["rep", "ab", n], ["rnd", 5, n]):
                for cuts in ([n], [n, 0], [0, n], [n // 2, n - n // 2], [0, 0, n, 0], [1] * min(n, 30) + [n - min(n, 30)]):
                    for ct in ("text/plain", "text/event-stream"):
                        for enc in (None, "br", "identity", "gzip"):
                            if enc and (n > 1000 or len(cuts) > 2):
                                continue
                            out.append(dict(min=ms, level=9, body=spec, cuts=cuts, ct=ct, enc=enc, cl=True, headers=[["x-a", "1"], ["vary", "Cookie"]], status=200, reqs=[2, 0, 3], exc=None, backend="asyncio", jit=0, kind="script", omit=False))
    for i in range(len(ACCEPT)):
        for n in (10, 600):
            for cuts in ([n], [n - 1, 1]):
                out.append(dict(min=500, level=6, body=["rep", "z", n], cuts=cuts, ct="text/plain", enc=None, cl=False, headers=[], status=200, reqs=[i], exc=None, backend="asyncio", jit=0, kind="script", omit=True))
    for kind in ("plain", "json", "stream", "file", "empty", "event", "encoded"):
        out.append(dict(min=500, level=9, body=["rep", "abc", 3000], cuts=[3000], ct=None, enc=None, cl=True, headers=[["x-k", "v"]], status=200, reqs=[2, 0, 2, 5, 2], exc=None, backend="asyncio", jit=1, kind=kind, omit=False))
    for status in (201, 202, 203, 206, 207, 226, 300, 301, 302, 307, 400, 401, 403, 404, 405, 410, 412, 416, 418, 429, 451, 500, 501, 502, 503, 504, 599):
        for cuts in ([3000], [1500, 1500]):
            out.append(dict(min=500, level=9, body=["rep", "abc", 3000], cuts=cuts, ct="text/plain", enc=None, cl=True, headers=[["content-range", "bytes 0-2999/9000"]] if status == 206 else [], status=status, reqs=[2, 0], exc=None, backend="asyncio", jit=0, kind="script", omit=False))
    for exc in ("before", "after-start", "mid", "end"):
        for ct in ("text/plain", "text/event-stream"):
            out.append(dict(min=500, level=9, body=["rep", "abc", 3000], cuts=[1500, 1500], ct=ct, enc=None, cl=True, headers=[], status=200, reqs=[2, 0], exc=exc, backend="asyncio", jit=1, kind="script", omit=False))
    return out


def gen(rng, tier):
    ms = rng.choice([500, 500, 1, 2, 10, 100, 1000, 65536])
    n = rng.choice([0, 1, ms - 1, ms, ms, ms + 1, ms * 2, 100, 499, 500, 501, 5000, 65535, 65537, 150000])
    spec = rng.choice([["rnd", rng.randrange(99), n], ["rep", rng.choice(["a", "ab\n", "\xff\x00"]), n], ["cat", ["rep", "x", n // 2], ["rnd", 3, n - n // 2]]])
    hs = [[gens.header_name(rng).lower(), gens.header_value(rng)] for _ in range(rng.randrange(0, 4))]
    hs = [h for h in hs if h[0] not in ("vary",)]
    if rng.random() < 0.3:
        hs += [["vary", rng.choice(["Cookie", "Accept, Cookie", "Origin"])]]
    if rng.random() < 0.2:
        hs += [["set-cookie", "a"], ["set-cookie", "b"]]
    return dict(min=ms, level=rng.choice([9, 9, 1, 0, 5]), body=spec, cuts=chunking(rng, n), ct=rng.choice(CTYPES), enc=rng.choice([None] * 6 + ["br", "identity", "gzip", "deflate", ""]), cl=rng.random() < 0.6, headers=hs, status=rng.choice([200, 200, 200, 201, 203, 206, 226, 301, 400, 403, 404, 418, 500, 503, 599]),
                reqs=[rng.randrange(len(ACCEPT)) for _ in range(3)], exc=rng.choice([None] * 7 + ["before", "after-start", "mid", "end"]), backend=gens.backend(rng), jit=rng.choice([0, 0, 1, 2]), kind="script" if rng.random() < 0.85 else rng.choice(["plain", "json", "stream", "file", "event", "encoded"]), omit=rng.random() < 0.3)


class Boom(Exception):
    pass


def run(case, mon):
    body = mk(case["body"])
    msgs = split_body(body, case["cuts"])
    pull = [0]
    delivered_before = []

    async def script(scope, receive, send):
        if scope["type"] != "http":
            await send({"type": scope["type"] + ".ping"})
            return
        if case["exc"] == "before":
            raise Boom
        if case["jit"] == 2:
            await send({"type": "http.response.debug", "info": {"a": 1}})
        hs = hdr(case["headers"])
        if case["ct"]:
            hs.append((b"content-type", case["ct"].encode()))
        if case["enc"] is not None:
            hs.append((b"content-encoding", case["enc"].encode()))
        if case["cl"]:
            hs.append((b"content-length", str(len(body)).encode()))
        m = {"type": "http.response.start", "status": case["status"], "headers": hs}
        if not hs and case["omit"]:
            del m["headers"]
        await send(m)
        if case["exc"] == "after-start":
            raise Boom
        for i, (c, more) in enumerate(msgs):
            if case["exc"] == "mid" and i == len(msgs) // 2 and i:
                raise Boom
            m = {"type": "http.response.body", "body": c, "more_body": more}
            if case["omit"]:
                if not more:
                    del m["more_body"]
                if not c:
                    del m["body"]
            await send(m)
            await anyio.sleep(0)
        if case["exc"] == "end":
            raise Boom

    kind = case["kind"]
    text = body.decode("latin-1")
    hd = dict(case["headers"])
    hd = {k: v for k, v in hd.items() if k not in ("content-length", "content-type")}
    if kind == "script":
        inner = script
    elif kind == "plain":
        inner = PlainTextResponse(text, headers=hd)
    elif kind == "json":
        inner = JSONResponse({"t": text}, headers=hd)
    elif kind == "event":
        inner = Response(body, media_type="text/event-stream", headers=hd)
    elif kind == "encoded":
        inner = Response(zlib.compress(body), media_type="text/plain", headers={**hd, "content-encoding": "deflate"})
    elif kind == "empty":
        inner = Response(b"", status_code=204)
    elif kind == "stream":

        async def inner(scope, receive, send):
            async def it():
                for c, _ in msgs:
                    yield c

            await StreamingResponse(it(), headers=hd, media_type="text/plain")(scope, receive, send)

    else:
        path = mon.tmp + "/g.txt"
        with open(path, "wb") as f:
            f.write(body)

        async def inner(scope, receive, send):
            await FileResponse(path, headers=hd)(scope, receive, send)

    app = GZipMiddleware(inner, minimum_size=case["min"], compresslevel=case["level"])
    shapes = []
    if kind != "script":
        mon.n("responses reused")
    for k in case["reqs"]:
        accept, takes = ACCEPT[k]
        hs = [("host", "h")] + ([("accept-encoding", accept)] if accept is not None else [])
        plain = drive(inner, http_scope("GET", "/", hs), backend=case["backend"])
        t = drive(app, http_scope("GET", "/", hs), backend=case["backend"], seed=1, jitter=case["jit"])
        mon.n("requests")
        what = f"{kind} {case['status']} {len(body)} bytes in {case['cuts'][:6]}, type {case['ct']}, encoding {case['enc']}, Accept-Encoding {accept!r}, minimum {case['min']}, exception {case['exc']}"
        if case["exc"] and kind == "script" and not (case["exc"] == "mid" and len(msgs) < 2):
            mon.n("exceptions relayed")
            mon.ok(isinstance(t.exc, Boom), "exception", f"{what}: {t.exc!r}")
            if plain.complete:
                pass
            else:
                mon.ok(not t.complete, "truncated-marked-complete", what)
                continue
        elif t.exc is not None:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        http_protocol(t, mon)
        no_leaks(t, mon)
        mon.eq([m for m in t.sent if m["type"] == "http.response.debug"], [m for m in plain.sent if m["type"] == "http.response.debug"], "debug-messages", what)
        mon.eq(t.status, plain.status, "status", what)
        cenc = t.header_all("content-encoding")
        pbody = plain.body
        streamed = len(plain.chunks) > 1
        already = plain.header("content-encoding") is not None
        ev = (plain.header("content-type") or "").startswith("text/event-stream") and not (plain.header("content-type") or "").startswith("text/event-streams")
        prefix_ev = (plain.header("content-type") or "").startswith("text/event-stream")
        if prefix_ev and not ev:
            continue
        eligible = not already and not ev and (streamed or len(pbody) >= case["min"])
        rest = lambda tr: [h for h in tr.headers if h[0] not in (b"content-encoding", b"content-length", b"vary")]
        mon.eq(rest(t), rest(plain), "other-headers", what)
        vary = [x.strip().lower() for v in t.header_all("vary") for x in v.split(",")]
        pv = [x.strip().lower() for v in plain.header_all("vary") for x in v.split(",")]
        if not eligible:
            mon.n("already encoded" if already else "event streams" if ev else "too small")
            mon.eq((t.headers, t.chunks), (plain.headers, plain.chunks), "changed-without-compressing", what)
            shapes.append("pass")
            continue
        mon.ok("accept-encoding" in vary, "vary", f"{what}: Vary {vary}")
        mon.eq(set(vary) - {"accept-encoding"}, set(pv) - {"accept-encoding"}, "vary-kept", what)
        if not takes:
            mon.n("not accepted")
            mon.eq((t.chunks, cenc, t.header_all("content-length")), (plain.chunks, [], plain.header_all("content-length")), "identity-changed", what)
            shapes.append("identity")
            continue
        if len(pbody) == case["min"]:
            mon.n("at the minimum size")
        if not mon.eq(cenc, ["gzip"], "not-compressed", what):
            continue
        mon.n("compressed streams" if streamed else "compressed")
        try:
            d = zlib.decompressobj(31)
            got = d.decompress(t.body) + d.flush()
            mon.ok(d.eof and not d.unused_data, "gzip-trailer", f"{what}: eof {d.eof}, {len(d.unused_data)} extra bytes")
            mon.eq(got, pbody, "body-changed", what)
        except zlib.error as exc:
            mon.fail("not-gzip", f"{what}: {exc}; {t.body[:40]!r}")
        if streamed:
            mon.eq(t.header_all("content-length"), [], "stream-length", what)
        else:
            mon.eq(t.header_all("content-length"), [str(len(t.body))], "content-length", what)
        shapes.append(("gzip", streamed))
    sc = ws_scope("/", [("accept-encoding", "gzip")])
    if kind == "script":
        for s in (sc, {"type": "lifespan", "asgi": {}}):
            t = drive_any(app, s, "asyncio")
            mon.n("other scopes")
            mon.eq([m["type"] for m in t.sent], [s["type"] + ".ping"], "other-scope", s["type"])
    mon.nontrivial(kind, shapes, case["exc"], case["min"], len(body))
