from __future__ import annotations

import asyncio
import base64
import json
import random
import threading
import urllib.parse
import warnings

import anyio
import httpx

from starlette.testclient import TestClient, WebSocketDenialResponse
from starlette.websockets import WebSocketDisconnect

from vp import gens
from vp.asgi import chunking, hdr, split_body

ID = "C39"
PROP = dict(
    title="The test client shows the app the request, and the caller the response",
    statement=(
        "For every request made through TestClient the application receives exactly that request as a server would present it - method, percent-decoded path and raw path, query, root path, scheme, host, port, client, header names and value bytes, body - and the caller gets exactly what the application sent: status, every header in order, the concatenated body (none for HEAD), "
        "or the exception it raised (500 without raise_server_exceptions); after the response the application sees a disconnect. WebSocket sessions deliver every message once, in order and unchanged in both directions, with the accepted subprotocol and headers, close code and reason, or the denial response. "
        "As a context manager it runs start-up before the first request and shutdown after the last, on one event loop, gives each request its own copy of the lifespan state and raises lifespan failures; arguments passed by the caller are never modified."
    ),
    over=["inputs", "programs", "histories"],
    quant="every method, URL, header bytes, body, base URL and option, every response sequence, WebSocket conversation and lifespan outcome",
    why="every other test of the project is seen through this client, with a handful of plain requests; what it distorts, no test can notice",
    files=["starlette/testclient.py"],
    mechanism=[("requests", "starlette/testclient.py:_TestClientTransport.handle_request"), ("websockets", "starlette/testclient.py:WebSocketTestSession"), ("lifespan", "starlette/testclient.py:TestClient.__enter__")],
)
TECH = "runtime monitoring: a recording ASGI application under the client compared, per exchange, with an independent model of the request and the response"
RULE = "each case is one client with a handful of requests, a WebSocket conversation or a lifespan; non-trivial when both directions were compared"
LEVEL_NOTE = "held on the generated exchanges; incomplete responses and WebSocket applications that end without answering are left out"
BUDGET = {"quick": (12000, 12), "thorough": (150000, 240)}
REQUIRED = ("requests compared", "responses compared", "exceptions relayed", "exceptions hidden", "websocket conversations", "denials", "lifespans", "lifespan failures", "state copies", "non-ascii headers", "disconnects after response", "HEAD requests", "asgi2 apps", "streamed uploads", "arguments unchanged", "verbs")

BASES = ["http://testserver", "https://testserver", "http://example.org:8080", "https://example.org:443", "http://127.0.0.1:5000", "http://[::1]:8000", "http://[2001:db8::1]", "https://a.example.org:8443", "http://testserver/prefix", "http://localhost:80"]
PATHS = ["/", "/a", "/a/b/", "/%20x", "/a%2Fb", "/%25", "/%2525", "/%252F", "/é", "/%C3%A9", "/日本", "/a;b=c", "/a:b", "/@", "/a+b", "/%7Ea", "/~a", "/a,b", "/(x)", "/%3Fq", "/%23f", "/a//b", "//a", "/[x]", "/'", "/a%00b", "/%f0%9f%98%80", "/{x}", "/%E2%82%AC"]


VERBS = ["get", "head", "options", "post", "put", "patch", "delete", "request"]
KW = {"params": {"p": "1 &é", "q": ["a", "b"]}, "headers": {"X-H": "v1"}, "cookies": {"ck": "1"}, "auth": ("user", "pass:word"), "follow_redirects": None, "timeout": 3.5, "extensions": {"trace-id": 7}, "content": b"\x00raw", "data": {"f": "1 &", "g": ["x", "y"]}, "files": {"up": ("n.txt", b"zz\r\n--", "text/x")}, "json": {"k": [1, None, "é"]}}
BODY = ("content", "data", "files", "json")


class Boom(Exception):
    pass


def fixed(tier):
    out = []
    i = 0
    for b in BASES:
        for p in PATHS:
            i += 1
            out.append(dict(mode="http", base=b, root=["", "/root"][i % 2], reqs=[dict(method=["GET", "POST", "HEAD"][i % 3], path=p, query="a=b&c=%20", headers=[["x-a", "1"]], body="abc", how="content", resp=dict(status=200, headers=[["x-b", "2"], ["set-cookie", "a=b"], ["set-cookie", "c=d"]], body="hello", chunks=2, exc=None))], backend=["asyncio", "trio"][i % 2], seed=i, ctx=i % 3 == 0, asgi2=i % 5 == 0, rse=True, client=None))
    for exc in ("before", "mid", "after"):
        for rse in (True, False):
            for ctx in (True, False):
                out.append(dict(mode="http", base="http://testserver", root="", reqs=[dict(method="GET", path="/", query="", headers=[], body="", how="content", resp=dict(status=201, headers=[["x", "y"]], body="abc", chunks=2, exc=exc))] * 2, backend="asyncio", seed=1, ctx=ctx, asgi2=False, rse=rse, client=None))
    for k in ("ok", "start-fail", "stop-fail", "start-raise", "stop-raise", "early-raise", "unsupported"):
        for backend in ("asyncio", "trio"):
            out.append(dict(mode="life", kind=k, backend=backend, seed=3, n=3))
    for k in ("close", "close-bare", "denial", "denial-bare", "raise", "raise-later", "echo", "close-later"):
        for backend in ("asyncio", "trio"):
            out.append(dict(mode="ws", kind=k, backend=backend, seed=3, msgs=[["t", "a"], ["b", "\x00\xff"], ["jt", [1, "é"]], ["jb", {"a": None}], ["t", ""], ["b", ""]], code=4001, reason="why", sub=["a", "b"], pick=1, headers=[["x-y", "z"]], path="/ws/%C3%A9", query="a=1", leave=0))
    for verb in VERBS:
        for kw in [[k] for k in KW] + [list(KW)] + [["params", "headers", "data", "files"], ["data"], ["json", "params"], []]:
            out.append(dict(mode="verb", verb=verb, kw=[k for k in kw if k not in BODY or verb in ("post", "put", "patch", "request")], via=["str", "url", "abs"][len(out) % 3], client=["", "headers", "cookies", "follow", "nofollow", "options"][len(out) % 6], backend=["asyncio", "trio"][len(out) % 2], seed=len(out)))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.1:
        verb = rng.choice(VERBS)
        return dict(mode="verb", verb=verb, kw=[k for k in rng.sample(sorted(KW), rng.randrange(0, 6)) if k not in BODY or verb in ("post", "put", "patch", "request")], via=rng.choice(["str", "url", "abs"]), client=rng.choice(["", "headers", "cookies", "follow", "nofollow", "options"]), backend=gens.backend(rng), seed=rng.randrange(10**6))
    r = rng.random()
    base = dict(backend=gens.backend(rng), seed=rng.randrange(10**6))
    if r < 0.6:
        reqs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            hs = []
            for _ in range(rng.randrange(0, 5)):
                hs.append([rng.choice(["x-a", "X-B", "Accept", "X-Long-Name", "content-language", "X-A"]), rng.choice(["1", "a, b", "", "é", "ÿþ", "x;y=z", "Ã©", "日本".encode().decode("latin-1"), gens.token(rng)])])
            rh = []
            for _ in range(rng.randrange(0, 6)):
                rh.append([rng.choice(["x-a", "x-b", "set-cookie", "content-type", "etag", "link", "vary", "x-c"]), rng.choice(["1", "a=b; Path=/", "", "é", "ÿ", "日本".encode().decode("latin-1"), gens.token(rng)])])
            p = rng.choice(PATHS) if rng.random() < 0.6 else "/" + urllib.parse.quote(gens.text(rng, 0, 8), safe=rng.choice(["/", "/%", ""]))
            if any(x in (".", "..") for x in urllib.parse.unquote(p).split("/")):
                p = "/dots"  # clients resolve dot segments
            reqs.append(
                dict(
                    method=rng.choice(["GET", "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "PURGE"]), path=p,
                    query=rng.choice(["", "a=b", "a=%20&b=c+d", "x=%C3%A9", "a=b&a=c", "q", "=", "a=b?c", "u=/x?y=z&w=?", "a=%26", "%25=%2525"]), headers=hs,
                    body=rng.choice(["", "", "x", "é\x00", "b" * rng.choice([100, 70000])]), how=rng.choice(["content", "content", "iter", "json", "form", "files"]),
                    resp=dict(status=rng.choice([200, 201, 204, 400, 404, 418, 500, 503, 302, 304]), headers=rh, body=rng.choice(["", "x", "hello", "\x00ÿ" * 20, "z" * 70000]), chunks=rng.choice([1, 1, 2, 5]), exc=rng.choice([None] * 7 + ["before", "mid", "after"])),
                )
            )
        return dict(base, mode="http", base=rng.choice(BASES), root=rng.choice(["", "", "/root", "/a/b"]), reqs=reqs, ctx=rng.random() < 0.6, asgi2=rng.random() < 0.1, rse=rng.random() < 0.6, client=rng.choice([None, None, ["1.2.3.4", 99]]))
    if r < 0.85:
        msgs = []
        for _ in range(rng.randrange(0, 8)):
            k = rng.choice(["t", "b", "jt", "jb"])
            msgs.append([k, gens.text(rng, 0, 10, ctl=True) if k == "t" else "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(5))) if k == "b" else gens.json_value(rng)])
        return dict(base, mode="ws", kind=rng.choice(["echo", "echo", "echo", "close", "close-bare", "denial", "denial-bare", "raise", "raise-later", "close-later"]), msgs=msgs, code=rng.choice([1000, 1001, 1008, 3000, 4000, 4999]), reason=rng.choice(["", "why", "é", None]), sub=rng.choice([[], ["a"], ["a", "b", "c"], ["z", "b", "m"], ["v2.x", "V1.x", "v1.x"]]), pick=rng.randrange(3), headers=rng.choice([[], [["x-y", "z"], ["x-y", "w"]], [["x-é".encode("ascii", "ignore").decode(), "ÿ"]]]), path=rng.choice(PATHS), query=rng.choice(["", "a=1&b=%20", "a=b?c", "u=/x?y=z"]), leave=rng.randrange(3))
    return dict(base, mode="life", kind=rng.choice(["ok", "ok", "start-fail", "stop-fail", "start-raise", "stop-raise", "early-raise", "unsupported"]), n=rng.randrange(0, 5))


def run(case, mon):
    {"http": run_http, "verb": run_verb, "ws": run_ws, "life": run_life}[case["mode"]](case, mon)


def as_asgi2(app):
    class A:
        def __init__(self, scope):
            self.scope = scope

        async def __call__(self, receive, send):
            await app(self.scope, receive, send)

    return A


def model_request(case, r, url):
    """what a server would put in the scope, from the text of the URL and the base URL alone"""
    b = urllib.parse.urlsplit(case["base"])
    return dict(scheme=b.scheme, host=b.hostname, port=b.port or {"http": 80, "https": 443}[b.scheme], prefix=b.path)


SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@/%")


def wire_path(path):
    """the path as a client writes it on the wire: what may not appear is percent-encoded"""
    return "".join(c if c in SAFE else "".join("%%%02X" % b for b in c.encode("utf8")) for c in path)


def run_http(case, mon):
    seen = []
    loops = set()

    async def app(scope, receive, send):
        if scope["type"] == "lifespan":
            await receive()
            scope["state"]["k"] = "v"
            await send({"type": "lifespan.startup.complete"})
            await receive()
            await send({"type": "lifespan.shutdown.complete"})
            return
        loops.add(threading.get_ident())
        n = len(seen)
        r = case["reqs"][n]
        body = b""
        while True:
            m = await receive()
            assert m["type"] == "http.request", m
            body += m.get("body", b"")
            if not m.get("more_body", False):
                break
        rec = dict(scope=dict(scope, headers=list(scope["headers"])), body=body, state=dict(scope.get("state") or {}))
        seen.append(rec)
        scope["state"]["leak"] = n
        resp = r["resp"]
        if resp["exc"] == "before":
            raise Boom(n)
        start = {"type": "http.response.start", "status": resp["status"], "headers": hdr(resp["headers"])}
        if not resp["headers"] and case["seed"] % 2:
            del start["headers"]
        await send(start)
        data = resp["body"].encode("latin-1")
        parts = split_body(data, chunking(random.Random(case["seed"]), len(data), "few" if resp["chunks"] > 1 else "one"))
        for i, (c, more) in enumerate(parts):
            if resp["exc"] == "mid":
                raise Boom(n)
            m = {"type": "http.response.body", "body": c, "more_body": more}
            if not more:
                del m["more_body"]
            if not c and case["seed"] % 2:
                del m["body"]
            await send(m)
        rec["after"] = await receive()
        if resp["exc"] == "after":
            raise Boom(n)

    target = as_asgi2(app) if case["asgi2"] else app
    if case["asgi2"]:
        mon.n("asgi2 apps")
    own = {"User-Agent": "agent"} if case["seed"] % 3 == 0 else {"x-own": "1"} if case["seed"] % 3 == 1 else None
    kept = dict(own) if own is not None else None
    kw = dict(base_url=case["base"], root_path=case["root"], backend=case["backend"], raise_server_exceptions=case["rse"], follow_redirects=False)
    if own is not None:
        kw["headers"] = own
    if case["client"]:
        kw["client"] = tuple(case["client"])
    client = TestClient(target, **kw)
    mon.ok(own == kept, "argument-modified", f"TestClient(headers={kept}) changed the caller's dictionary to {own}")
    mon.n("arguments unchanged")
    if case["ctx"]:
        client.__enter__()
    try:
        for n, r in enumerate(case["reqs"]):
            one(case, mon, client, n, r, seen, own)
    finally:
        if case["ctx"]:
            client.__exit__(None, None, None)
    if case["ctx"]:
        mon.ok(len(loops) <= 1, "several-loops", "requests of one client context ran on different event loops")
    mon.nontrivial("http", case["base"], [(r["method"], r["path"], r["resp"]["status"], r["resp"]["exc"]) for r in case["reqs"]])


def one(case, mon, client, n, r, seen, own):
    hs = [(k.encode(), v.encode("latin-1")) for k, v in r["headers"]]
    url = r["path"] + ("?" + r["query"] if r["query"] else "")
    kw = {}
    how = r["how"]
    want_body = r["body"].encode("latin-1")
    ctype = None
    if how == "content":
        kw["content"] = want_body if want_body else None
    elif how == "iter":
        mon.n("streamed uploads")
        kw["content"] = iter([want_body[:1], want_body[1:], b"end"])
        want_body += b"end"
    elif how == "json":
        kw["json"] = {"a": r["body"][:50]}
        want_body, ctype = None, b"application/json"
    elif how == "form":
        kw["data"] = {"k": r["body"][:50] or "e", "l": ["1", "2"]}
        want_body, ctype = None, b"application/x-www-form-urlencoded"
    else:
        kw["files"] = {"f": ("n.bin", want_body)}
        want_body, ctype = None, b"multipart/form-data"
    if url.startswith("//"):
        url = case["base"].rstrip("/") + url
    resp = r["resp"]
    err = got = None
    client.cookies.clear()
    try:
        got = client.request(r["method"], url, headers=hs, **kw)
    except Boom as exc:
        err = exc
    m = model_request(case, r, url)
    rec = seen[n] if len(seen) > n else None
    if not mon.ok(rec is not None and len(seen) == n + 1, "not-delivered", f"{len(seen)} requests were delivered after {n + 1} calls"):
        return
    s = rec["scope"]
    mon.n("requests compared")
    if r["method"] == "HEAD":
        mon.n("HEAD requests")
    prefix = m["prefix"].rstrip("/") if not url.startswith("http") else m["prefix"].rstrip("/")
    wire = wire_path(prefix + r["path"])
    path = urllib.parse.unquote(wire)
    raw = s.get("raw_path")
    mon.eq(s["method"], r["method"], "method", "method")
    mon.eq(s["path"], path, "path", f"path of {url!r}")
    mon.ok(isinstance(raw, bytes) and urllib.parse.unquote_to_bytes(raw) == urllib.parse.unquote_to_bytes(wire) and raw.count(b"/") == wire.count("/"), "raw-path", f"raw path of {url!r} is {raw!r}")
    mon.eq(s["query_string"], r["query"].encode(), "query", f"query of {url!r}")
    mon.eq(s["root_path"], case["root"], "root-path", "root path")
    mon.eq(s["scheme"], m["scheme"], "scheme", "scheme")
    mon.eq(list(s["server"]), [m["host"], m["port"]], "server", f"server of {case['base']}")
    mon.eq(tuple(s["client"]), tuple(case["client"] or ("testclient", 50000)), "client", "client")
    mon.eq(s["type"], "http", "type", "type")
    mon.eq(s["http_version"], "1.1", "http-version", "HTTP version")
    hh = s["headers"]
    mon.ok(all(isinstance(k, bytes) and isinstance(v, bytes) and k == k.lower() for k, v in hh), "header-form", f"{hh}")
    for name in {k.lower() for k, _ in hs}:
        want = [v for k, v in hs if k.lower() == name]
        mon.eq([v for k, v in hh if k == name], want, "header", f"request header {name!r}")
        if any(max(v, default=0) > 127 for v in want):
            mon.n("non-ascii headers")
    hosts = [v for k, v in hh if k == b"host"]
    b = urllib.parse.urlsplit(case["base"])
    netloc = b.netloc if b.port not in ({"http": 80, "https": 443}[b.scheme],) else b.netloc.rsplit(":", 1)[0]
    mon.eq(hosts, [netloc.encode()], "host-header", "host header")
    ua = [v for k, v in hh if k == b"user-agent"]
    mon.eq(ua, [b"agent" if own and "User-Agent" in own else b"testclient"], "user-agent", "user-agent header")
    if want_body is not None:
        mon.ok(rec["body"] == want_body, "body", f"body received {rec['body'][:80]!r} ({len(rec['body'])}), sent {want_body[:80]!r} ({len(want_body)})")
    else:
        ct = [v for k, v in hh if k == b"content-type"]
        mon.ok(len(ct) == 1 and ct[0].startswith(ctype), "content-type", f"{ct}")
        if how == "json":
            mon.eq(json.loads(rec["body"]), {"a": r["body"][:50]}, "json-body", "json body")
        elif how == "form":
            mon.eq(urllib.parse.parse_qsl(rec["body"].decode(), keep_blank_values=True), [("k", r["body"][:50] or "e"), ("l", "1"), ("l", "2")], "form-body", "form body")
        else:
            mon.ok(b"\r\n\r\n" + r["body"].encode("latin-1") + b"\r\n--" in rec["body"] and b'filename="n.bin"' in rec["body"], "files-body", "multipart body")
    mon.eq(rec["state"], {"k": "v"} if case["ctx"] else {}, "state", "lifespan state of the request")
    mon.n("state copies")
    exc = resp["exc"]
    if exc and case["rse"]:
        mon.n("exceptions relayed")
        mon.ok(isinstance(err, Boom) and err.args == (n,), "exception", f"the application raised Boom({n}) and the client {err!r} (response {got!r})")
        return
    if not mon.ok(err is None and got is not None, "exception", f"raise_server_exceptions=False: {err!r}"):
        return
    if exc == "before":
        mon.n("exceptions hidden")
        mon.ok(got.status_code == 500 and got.content == b"", "hidden-500", f"{got!r}")
        return
    mon.n("responses compared")
    mon.eq(got.status_code, resp["status"], "status", "status")
    raw = [(k, v) for k, v in got.headers.raw]
    mon.eq([(k.lower(), v) for k, v in raw], hdr(resp["headers"]), "response-headers", "response headers")
    if any(ord(c) > 127 for _, v in resp["headers"] for c in v):
        mon.n("non-ascii headers")
    if exc is None or exc == "after":
        want = resp["body"].encode("latin-1") if r["method"] != "HEAD" else b""
        mon.ok(got.content == want, "response-body", f"{got.content[:60]!r} ({len(got.content)}) sent {want[:60]!r} ({len(want)})")
        mon.ok(rec.get("after", {}).get("type") == "http.disconnect", "disconnect", f"after the response the application received {rec.get('after')}")
        mon.n("disconnects after response")


def run_verb(case, mon):
    """Every method of the client hands over every argument it has."""
    got = []
    debug = []

    async def app(scope, receive, send):
        body = b""
        while True:
            m = await receive()
            body += m.get("body", b"")
            if not m.get("more_body"):
                break
        got.append((scope, body))
        if case["backend"] == "asyncio":
            debug.append(asyncio.get_running_loop().get_debug())
        if scope["path"] == "/from":
            await send({"type": "http.response.start", "status": 307, "headers": [(b"location", b"/to?r=1"), (b"content-length", b"0")]})
            await send({"type": "http.response.body", "body": b""})
        else:
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body", "body": b"ok"})

    kw = {k: KW[k] for k in case["kw"]}
    rng = random.Random(case["seed"])
    body_kw = [k for k in BODY if k in kw]
    if len(body_kw) > 1 and set(body_kw) != {"data", "files"}:
        for k in body_kw:
            kw.pop(k)
        kw[rng.choice(body_kw)] = None
        kw = {k: KW[k] for k in kw}
    ckw = {"": {}, "headers": {"headers": {"X-C": "client", "X-H": "c", "User-Agent": "ua"}}, "cookies": {"cookies": {"cc": "2"}}, "follow": {"follow_redirects": True}, "nofollow": {"follow_redirects": False}, "options": {"backend_options": {"debug": True}} if case["backend"] == "asyncio" else {}}[case["client"]]
    follow = case["client"] != "nofollow"
    if "follow_redirects" in kw:
        follow = kw["follow_redirects"] = bool(rng.randrange(2))
    before = repr((kw, ckw))
    what = f"{case['verb']}({kw}) of TestClient({ckw})"
    client = TestClient(app, backend=case["backend"], **ckw)
    url = {"str": "/from", "url": httpx.URL("/from"), "abs": "http://testserver/from"}[case["via"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", DeprecationWarning)
        method = "PURGE" if case["verb"] == "request" else case["verb"].upper()
        r = client.request("PURGE", url, **kw) if case["verb"] == "request" else getattr(client, case["verb"])(url, **kw)
    mon.n("verbs")
    mon.eq(repr((kw, ckw)), before, "arguments-changed", what)
    mon.eq((r.status_code, [x.status_code for x in r.history], [s["path"] for s, _ in got]), (200, [307], ["/from", "/to"]) if follow else (307, [], ["/from"]), "verb-redirects", what)
    scope, body = got[0]
    hs = {k.decode(): v.decode("latin-1") for k, v in scope["headers"]}
    mon.eq(scope["method"], method, "verb-method", what)
    mon.eq(urllib.parse.parse_qsl(scope["query_string"].decode()), [("p", "1 &é"), ("q", "a"), ("q", "b")] if "params" in kw else [], "verb-params", what)
    mon.eq(hs.get("x-h"), "v1" if "headers" in kw else "c" if case["client"] == "headers" else None, "verb-headers", what)
    mon.eq((hs.get("x-c"), hs.get("user-agent")), ("client", "ua") if case["client"] == "headers" else (None, "testclient"), "client-headers", what)
    mon.eq(sorted(hs.get("cookie", "").split("; ")), sorted((["ck=1"] if "cookies" in kw else []) + (["cc=2"] if case["client"] == "cookies" else []) or [""]), "verb-cookies", what)
    mon.eq(hs.get("authorization"), "Basic " + base64.b64encode(b"user:pass:word").decode() if "auth" in kw else None, "verb-auth", what)
    first = (r.history or [r])[0].request.extensions
    mon.eq(first.get("trace-id"), 7 if "extensions" in kw else None, "verb-extensions", what)
    if "timeout" in kw:
        mon.eq(first.get("timeout", {}).get("read"), 3.5, "verb-timeout", what)
    ct = hs.get("content-type", "")
    if "content" in kw:
        mon.eq(body, b"\x00raw", "verb-content", what)
    elif "json" in kw:
        mon.eq((ct, json.loads(body)), ("application/json", KW["json"]), "verb-json", what)
    elif "files" in kw:
        parts = split_multipart(body, ct)
        want = ([("f", None, b"1 &"), ("g", None, b"x"), ("g", None, b"y")] if "data" in kw else []) + [("up", "n.txt", b"zz\r\n--")]
        mon.eq(parts, want, "verb-files", what)
    elif "data" in kw:
        mon.eq((ct, urllib.parse.parse_qsl(body.decode())), ("application/x-www-form-urlencoded", [("f", "1 &"), ("g", "x"), ("g", "y")]), "verb-data", what)
    else:
        mon.eq(body, b"", "verb-body", what)
    if case["client"] == "options" and case["backend"] == "asyncio":
        mon.eq(set(debug), {True}, "backend-options", what)
    elif case["backend"] == "asyncio":
        mon.eq(set(debug), {False}, "backend-options", what)
    mon.nontrivial(case["verb"], sorted(kw), case["client"], case["via"])


def split_multipart(body, ct):
    b = b"--" + ct.split("boundary=")[1].encode()
    out = []
    for part in (b"\r\n" + body).split(b"\r\n" + b)[1:-1]:
        head, _, data = part.partition(b"\r\n\r\n")
        h = head.decode()
        name = h.split('name="')[1].split('"')[0]
        out.append((name, h.split('filename="')[1].split('"')[0] if 'filename="' in h else None, data))
    return out


def run_ws(case, mon):
    seen = {}
    again = []
    kind = case["kind"]

    async def app(scope, receive, send):
        seen["scope"] = dict(scope)
        seen["state"] = dict(scope.get("state") or {})
        scope["state"]["leak"] = 1
        if again:
            await send({"type": "websocket.accept"})
            await receive()
            return
        m = await receive()
        seen["connect"] = m
        if kind == "raise":
            raise Boom("ws")
        if kind == "close":
            await send({"type": "websocket.close", "code": case["code"], "reason": case["reason"]})
            return
        if kind == "close-bare":
            await send({"type": "websocket.close"})
            return
        if kind == "denial":
            await send({"type": "websocket.http.response.start", "status": 418, "headers": hdr(case["headers"])})
            await send({"type": "websocket.http.response.body", "body": b"no ", "more_body": True})
            await send({"type": "websocket.http.response.body", "body": b"entry"})
            return
        if kind == "denial-bare":
            await send({"type": "websocket.http.response.start", "status": 401})
            await send({"type": "websocket.http.response.body"})
            return
        acc = {"type": "websocket.accept"}
        if case["sub"]:
            acc["subprotocol"] = case["sub"][case["pick"] % len(case["sub"])]
        if case["headers"]:
            acc["headers"] = hdr(case["headers"])
        await send(acc)
        got = seen["got"] = []
        try:
            while True:
                m = await receive()
                got.append(m)
                if m["type"] == "websocket.disconnect":
                    break
                if kind == "raise-later":
                    raise Boom("later")
                if kind == "close-later":
                    await send({"type": "websocket.close", "code": case["code"], "reason": case["reason"]})
                    break
                out = {"type": "websocket.send"}
                for k in ("text", "bytes"):
                    if m.get(k) is not None:
                        out[k] = m[k]
                await send(out)
                await send({"type": "websocket.send", "text": str(len(got))})
        finally:
            seen["ended"] = True

    base = urllib.parse.urlsplit(BASES[case["seed"] % len(BASES)])
    root = ["", "/root", "/a/é"][case["seed"] % 3]
    peer = [None, ("10.1.2.3", 44)][case["seed"] % 2]
    client = TestClient(app, base_url=base.geturl(), root_path=root, backend=case["backend"], **({"client": peer} if peer else {}))
    url = case["path"] + ("?" + case["query"] if case["query"] else "")
    if url.startswith("//"):
        url = "/x" + url[1:]
    # whatever the base URL, a WebSocket without an origin of its own is asked of the plain test server
    origin, server = [("", ["ws", "testserver", 80]), ("", ["ws", "testserver", 80]), ("wss://ws.example.org", ["wss", "ws.example.org", 443]), ("ws://h:8080", ["ws", "h", 8080]), ("ws://h", ["ws", "h", 80]), ("wss://[::1]:444", ["wss", "::1", 444])][case["seed"] % 6]
    url = origin + url
    headers = {"x-h": "1"}
    subs = list(case["sub"])
    session = client.websocket_connect(url, subprotocols=subs or None, headers=headers)
    mon.ok(headers == {"x-h": "1"} and subs == case["sub"], "argument-modified", f"websocket_connect changed the caller's headers to {headers}, subprotocols {subs}")
    mon.n("arguments unchanged")
    err = None
    replies = []
    entered = False
    try:
        with session as ws:
            entered = True
            want_sub = case["sub"][case["pick"] % len(case["sub"])] if case["sub"] else None
            mon.eq(ws.accepted_subprotocol, want_sub, "subprotocol", "accepted subprotocol")
            mon.eq(list(ws.extra_headers or []), hdr(case["headers"]), "accept-headers", "headers of the accept")
            for k, v in case["msgs"]:
                if k == "t":
                    ws.send_text(v)
                elif k == "b":
                    ws.send_bytes(v.encode("latin-1"))
                else:
                    ws.send_json(v, mode="text" if k == "jt" else "binary")
            if kind in ("raise-later", "close-later") and case["msgs"]:
                ws.receive_text()
            for i, (k, v) in enumerate(case["msgs"]):
                if k == "t":
                    mon.eq(ws.receive_text(), v, "echo", "text")
                elif k == "b":
                    mon.eq(ws.receive_bytes(), v.encode("latin-1"), "echo", "bytes")
                else:
                    mon.eq(ws.receive_json(mode="text" if k == "jt" else "binary"), v, "echo", "json")
                mon.eq(ws.receive_text(), str(i + 1), "order", "running count")
            if case["leave"] == 1:
                ws.close(case["code"], case["reason"])
                ws.portal.call(anyio.sleep, 0)
    except (Boom, WebSocketDisconnect, httpx.HTTPError) as exc:
        err = exc
    mon.n("websocket conversations")
    s = seen["scope"]
    mon.eq(seen["state"], {}, "state-copy", "state of the WebSocket")
    if len(case["msgs"]) % 4 == 1:
        again.append(1)
        with client.websocket_connect("/again"):
            pass
        mon.eq(seen["state"], {}, "state-copy", "state of the next WebSocket of the client")
        mon.n("state copies")
    mon.eq(s["type"], "websocket", "type", "type")
    wp = wire_path(urllib.parse.urlsplit(url).path)
    mon.eq(s["path"], urllib.parse.unquote(wp), "path", f"path of {url!r}")
    mon.eq(s["query_string"], case["query"].encode(), "query", f"query of {url!r}")
    raw = s.get("raw_path")
    mon.ok(isinstance(raw, bytes) and urllib.parse.unquote_to_bytes(raw) == urllib.parse.unquote_to_bytes(wp) and raw.count(b"/") == wp.count("/"), "raw-path", f"raw path of {url!r} is {raw!r}")
    mon.eq(s["root_path"], root, "root-path", "root path of the WebSocket")
    mon.eq([s["scheme"]] + list(s["server"]), server, "server", f"scheme and server of the WebSocket {url} of a client for {base.geturl()}")
    mon.eq(tuple(s["client"]), peer or ("testclient", 50000), "client", "client of the WebSocket")
    mon.eq(s.get("http_version", "1.1"), "1.1", "http-version", "HTTP version of the WebSocket")
    mon.ok("websocket.http.response" in s.get("extensions", {}), "extensions", f"{s.get('extensions')}")
    mon.eq(list(s["subprotocols"]), case["sub"], "subprotocols", "offered subprotocols")
    mon.ok((b"x-h", b"1") in s["headers"], "header", f"{s['headers']}")
    mon.eq(seen["connect"]["type"], "websocket.connect", "connect", "first message")
    mon.nontrivial("ws", kind, [m[0] for m in case["msgs"]], case["sub"])
    if kind == "raise":
        mon.n("exceptions relayed")
        mon.ok(isinstance(err, Boom) and not entered, "exception", f"{err!r}")
        return
    if kind in ("close", "close-bare"):
        want = (case["code"], case["reason"]) if kind == "close" else (1000, "")
        mon.ok(type(err) is WebSocketDisconnect and not entered and (err.code, err.reason or "") == (want[0], want[1] or ""), "close", f"close {want} gave {err!r} {getattr(err, 'code', None)} {getattr(err, 'reason', None)}")
        return
    if kind.startswith("denial"):
        mon.n("denials")
        if not mon.ok(isinstance(err, WebSocketDenialResponse) and not entered, "denial", f"{err!r}"):
            return
        if kind == "denial":
            mon.ok(err.status_code == 418 and err.content == b"no entry" and [(k.lower(), v) for k, v in err.headers.raw if k.lower() != b"content-length"] == hdr(case["headers"]), "denial", f"{err!r} {err.headers.raw} {err.content!r}")
        else:
            mon.ok(err.status_code == 401 and err.content == b"", "denial", f"{err!r}")
        return
    if kind == "raise-later" and case["msgs"]:
        mon.n("exceptions relayed")
        mon.ok(isinstance(err, Boom), "exception", f"{err!r}")
        return
    if kind == "close-later" and case["msgs"]:
        mon.ok(isinstance(err, WebSocketDisconnect) and (err.code, err.reason or "") == (case["code"], case["reason"] or ""), "close", f"{err!r}")
        return
    if not mon.ok(err is None, "conversation", f"{err!r}"):
        return
    got = seen["got"]
    want = [("text", v) if k == "t" else ("bytes", v.encode("latin-1")) if k == "b" else (None, v) for k, v in case["msgs"]]
    recv = [m for m in got if m["type"] == "websocket.receive"]
    mon.eq(len(recv), len(want), "delivered", "number of messages delivered")
    for m, (k, v) in zip(recv, want):
        if k:
            mon.ok(m.get(k) == v and m.get("bytes" if k == "text" else "text") is None, "delivered", f"{m} for {v!r}")
    mon.ok(seen.get("ended"), "session-leaked", "the application was still running after the session was left")
    if case["leave"] == 1:
        mon.ok(got and got[-1]["type"] == "websocket.disconnect" and got[-1].get("code") == case["code"] and (got[-1].get("reason") or "") == (case["reason"] or ""), "client-close", f"close({case['code']}, {case['reason']!r}) was delivered as {got[-1:]}")


def run_life(case, mon):
    kind = case["kind"]
    log = []
    shared = {"list": []}

    async def app(scope, receive, send):
        if scope["type"] == "websocket":
            log.append("ws")
            scope["state"]["own"] = len(log)
            log.append(sorted(scope["state"]))
            await send({"type": "websocket.accept"})
            await receive()
            return
        if scope["type"] == "http":
            log.append("http")
            scope["state"]["own"] = len(log)
            scope["state"]["shared"]["list"].append(len(log))
            log.append(sorted(scope["state"]))
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body", "body": b"ok"})
            return
        log.append(("thread", threading.get_ident()))
        if kind == "unsupported":
            raise Boom("no lifespan")
        m = await receive()
        log.append(m["type"])
        if kind == "early-raise":
            raise Boom("start")
        scope["state"]["shared"] = shared
        if kind in ("start-fail", "start-raise"):
            await send({"type": "lifespan.startup.failed", "message": "bad"})
            if kind == "start-raise":
                raise Boom("start")
            return
        await send({"type": "lifespan.startup.complete"})
        m = await receive()
        log.append(m["type"])
        if kind in ("stop-fail", "stop-raise"):
            await send({"type": "lifespan.shutdown.failed", "message": "bad"})
            if kind == "stop-raise":
                raise Boom("stop")
            return
        await send({"type": "lifespan.shutdown.complete"})
        log.append("end")

    client = TestClient(app, backend=case["backend"])
    err = None
    entered = False
    if kind == "ok" and case["seed"] % 2:
        with client:  # a client can be entered again
            client.get("/")
        mon.eq([x for x in log if isinstance(x, str)], ["lifespan.startup", "http", "lifespan.shutdown", "end"], "lifespan-order", "order of events")
        log.clear()
        shared["list"].clear()
        mon.n("clients entered again")
    try:
        with client:
            entered = True
            for i in range(case["n"]):
                client.get("/")
                if i % 2:
                    with client.websocket_connect("/"):
                        pass
    except BaseException as exc:  # noqa
        from vp.engine import _contains_timeout

        if _contains_timeout(exc):
            raise
        err = exc
    mon.n("lifespans")
    mon.nontrivial("life", kind, case["n"])
    names = [x for x in log if isinstance(x, str)]
    fails = kind in ("early-raise", "unsupported", "start-fail", "start-raise")
    mon.eq(entered, not fails, "entered", f"{kind}: entered the context")
    if kind in ("start-raise", "early-raise", "unsupported", "stop-raise"):
        mon.n("lifespan failures")
        mon.ok(isinstance(err, Boom), "lifespan-exception", f"{kind}: {err!r}")
    elif kind in ("start-fail", "stop-fail"):
        mon.n("lifespan failures")
        mon.ok(isinstance(err, Exception), "lifespan-exception", f"{kind}: {err!r}")
    else:
        mon.ok(err is None, "lifespan-exception", f"{err!r}")
    if kind in ("ok", "stop-fail", "stop-raise"):
        want = ["lifespan.startup"] + ["http" if i % 2 == 0 else "http ws" for i in range(case["n"])] + ["lifespan.shutdown"] + (["end"] if kind == "ok" else [])
        mon.eq(names, " ".join(want).split(), "lifespan-order", "order of events")
        mon.eq([x for x in log if isinstance(x, list)], [["own", "shared"]] * (case["n"] + case["n"] // 2), "state-copy", "state of the requests")
        mon.eq(len(shared["list"]), case["n"], "state-shared", "objects in the state are shared")
        mon.n("state copies")
