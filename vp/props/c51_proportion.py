from __future__ import annotations

import gc
import os
import random
import re
import sys
import time
from collections import deque

import anyio

import starlette
from starlette.applications import Starlette
from starlette.background import BackgroundTasks
from starlette.config import Config, Environ
from starlette.datastructures import URL, FormData, Headers, ImmutableMultiDict, MultiDict, MutableHeaders, QueryParams
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator
from starlette.staticfiles import StaticFiles
from starlette.testclient import TestClient

from vp import tracking
from vp.asgi import http_scope, ws_scope

ID = "C51"
PROP = dict(
    title="The work a connection takes is proportional to its size",
    statement=(
        "The work done for a connection grows no faster than in proportion to what it carries and what was declared for it: the length and contents, however hostile, of its path, query, host and of every header the framework reads (Range, If-Range, If-None-Match, If-Modified-Since, Cookie, Origin, Accept, Accept-Encoding, preflight headers, Content-Type), "
        "the number of its headers, cookies, query parameters, form fields, uploads, ranges, body messages (of any size), response chunks, WebSocket messages, set cookies and background tasks, the size of the session and of the file served, and the number of routes, mounts and middleware. "
        "The same holds for building multi-dicts, headers, query strings and URLs, reading configuration files, and generating schemas. (A route that declares several parameters in one segment, or several path parameters, may take more to match.)"
    ),
    over=["inputs", "programs"],
    quant="every header value made of repeated pieces, every count of every repeatable thing, in any size of delivery, through every middleware stack",
    why="a test uses small inputs, for which quadratic work is as quick as linear",
    files=["starlette/responses.py", "starlette/requests.py", "starlette/formparsers.py", "starlette/datastructures.py", "starlette/routing.py", "starlette/staticfiles.py", "starlette/middleware/gzip.py", "starlette/middleware/base.py", "starlette/middleware/cors.py", "starlette/middleware/wsgi.py", "starlette/middleware/sessions.py", "starlette/config.py", "starlette/schemas.py"],
    mechanism=[("Range", "starlette/responses.py:FileResponse._parse_range_header"), ("forms", "starlette/formparsers.py"), ("request body", "starlette/requests.py:Request.stream"), ("WSGI body", "starlette/middleware/wsgi.py:WSGIResponder.__call__"), ("If-None-Match", "starlette/staticfiles.py:StaticFiles.is_not_modified"), ("cookies", "starlette/requests.py:cookie_parser")],
)
TECH = "runtime monitoring: executed lines of the framework (sys.monitoring) and CPU time of the same exchange at two sizes; the growth is compared with the growth of the size"
RULE = "each case is one dimension of one exchange at a size and a multiple of it; non-trivial when both were executed and measured"
LEVEL_NOTE = "held on the generated dimensions and sizes; growth is only told from proportional when it is well above it"
BUDGET = {"quick": (3000, 22), "thorough": (40000, 240)}
REQUIRED = ("exchanges measured", "lines counted", "header values", "paths", "queries", "bodies", "responses", "declarations", "data structures", "websockets")

LINES = 4  # how much larger the second size is
CPU = 8
HERE = os.path.dirname(os.path.abspath(starlette.__file__)) + os.sep

UNITS = {
    "range": ["0", "9", "-", ",", "0-", "-0", "-1,", "0,", " ", "1-1,", "0-,", "5-9,2-6,", "=", "bytes=", "0 -", "\t", "x", "0-0, "],
    "if-range": ['"', "a", "W/", " ", ",", "Mon,"],
    "if-none-match": ['"a",', 'W/"a", ', '"', ",", "W/", " ", "*", "a", '","', '"a"'],
    "if-modified-since": ["0", " ", ",", ":", "(", "Mon, ", "+", "-1 "],
    "cookie": ["a=b; ", ";", "=", "a", " ", '"', 'a="b"; ', "session=x; ", "; ", "a=b,", "%20", 'a="'],
    "host": ["a", ".", ":", "[", "]", "a.", "-", "@", "/", "1:", "[:", "é"],
    "origin": ["a", ".", "https://", ":", "/", "a.", "https://a.org", " "],
    "access-control-request-headers": ["x, ", ",", " ", "x", "X-Y,", ", ,"],
    "access-control-request-method": ["G", "GET,", " "],
    "accept-encoding": ["gzip,", ";q=0", ";", "0", "q=0.0", ",", " ", "gzip;q=0.0,", "*;", "gzip;q=0.00", "."],
    "accept": ["text/html,", "*", "/", ",", ";q=0"],
    "content-type": ["a", ";a=b", ";", "=", "multipart/form-data;", " ", "/", "; charset=x"],
    "user-agent": ["a"],
    "authorization": ["a", " ", "Basic "],
    "x-forwarded-for": ["1.2.3.4, "],
}
CONVERTED = ["1", "a/", "1.", "a1-", "-.", "e", "1/z/"]
PATHS = ["1", "a1-", "-.", "e", "1/z/", "a", "/", "a/", "../", "./", "%", ".", "-", "//", "0", "é", "{", "x/y/", "%2f", ":", "\\", "1.", " ", "1/a/"]
QUERIES = ["a", "a=b&", "&", "=", "%", "+", "%41", ";", "a=%C3%A9&", "%C3", "a=", "?", "k[]=1&"]
BODY_UNITS = {"urlencoded": ["a=b&", "a", "a=", "%", "&", "=", "+", "%41", ";", "a=%20&", "\xff", "&&a"], "multipart": ["\r\n--b", "-", "\r", "\n", "\r\n", "--b\r\n", "a", "\r\n-", "\r\n--", "\x00", "--b--"], "json": ["1,"], "text": ["x"]}
PREFIX = {"range": ["bytes=", "bytes=0-", "bytes=-", ""], "if-none-match": ["", '"'], "cookie": ["", "a=", 'a="', "session="], "host": ["h", "", "[", "a.h:"], "origin": ["https://", ""], "accept-encoding": ["", "gzip;q=0.", "gzip;q=0"], "content-type": ["multipart/form-data; boundary=b", "application/x-www-form-urlencoded", "multipart/form-data; boundary=", ""], "if-modified-since": ["", "Mon, 01 Jan 2020 "], "accept": ["", "text/html"]}
SUFFIX = ["", "x", "-", ",", '"', "!"]
TARGETS = ["/file", "/static/f.txt", "/all", "/any/x", "/raise", "/nope", "/form"]
COUNTS = ["headers", "same-headers", "cookies", "query", "ranges", "ranges-rev", "ranges-overlap", "etags", "acrh", "hosts", "fields", "field-chunks", "body-chunks", "empty-chunks", "stream-chunks", "json-chunks", "parts", "files", "part-chunks", "part-headers", "part-header-chunks", "field-name-chunks", "value-chunks", "wsgi-body", "wsgi-chunks", "wsgi-headers", "response-chunks", "sync-chunks", "file-size", "set-cookie", "response-headers", "background", "session", "routes", "route-names", "mounts", "segments", "static-depth", "middleware", "base-middleware", "ws-messages", "ws-endpoint", "handlers", "listeners", "body-base", "redirect-path"]
DATA = ["multidict", "multidict-update", "queryparams", "queryparams-parse", "queryparams-str", "headers", "headers-raw", "mutable-headers-append", "formdata", "url-query", "url-host", "url-path", "url-replace", "config-file", "schema", "multi-items", "environ", "test-client-body", "url-include"]
STACKS = ["base", "gzip", "session", "cors", "hosts", "auth"]


def fixed(tier):
    out = []
    i = 0
    for h in UNITS:
        for u in UNITS[h]:
            for pre in PREFIX.get(h, [""]):
                i += 1
                t = {"range": ["/file", "/static/f.txt"], "if-range": ["/file"], "if-none-match": ["/static/f.txt"], "if-modified-since": ["/static/f.txt"], "content-type": ["/form"], "accept": ["/raise"]}.get(h, ["/all", "/nope", "/raise", "/static/f.txt"])
                out.append(dict(what="header", name=h, pre=pre, unit=u, suf=SUFFIX[i % len(SUFFIX)], target=t[i % len(t)], stack=STACKS if i % 2 else [], n=1500))
            # work that is quick for each character (copying) shows only in long values
            out.append(dict(what="header", name=h, pre=pre, unit=u, suf="", target=t[0], stack=STACKS if h in ("host", "origin") else [], n=20000))
    for u in PATHS:
        for pre in ("/", "/static/", "/any/", "/two/", "/m/") + (("/ci/", "/cf/", "/cu/", "/cp/", "/cs/") if u in CONVERTED else ()):
            i += 1
            out.append(dict(what="path", pre=pre, unit=u, suf=["", "/", "x"][i % 3], stack=STACKS if i % 3 == 0 else [], n=1500))
    for u in QUERIES:
        out.append(dict(what="query", pre=["", "a="][len(u) % 2], unit=u, suf="", target="/all", stack=[], n=1500))
    for ct in BODY_UNITS:
        for u in BODY_UNITS[ct]:
            for k in (1, 1000):
                i += 1
                out.append(dict(what="body", ct=ct, unit=u, chunk=k, stack=STACKS if i % 2 else [], n=1200))
    for c in COUNTS:
        for st in ([], STACKS):
            out.append(dict(what="count", dim=c, stack=st, n=0, chunk=100))
    for d in DATA:
        out.append(dict(what="data", dim=d, n=0, stack=[]))
    return out


def gen(rng, tier):
    r = rng.random()
    stack = rng.sample(STACKS, rng.randrange(0, len(STACKS) + 1))
    if r < 0.4:
        h = rng.choice(sorted(UNITS))
        us = UNITS[h]
        return dict(what="header", name=h, pre=rng.choice(PREFIX.get(h, [""])) + "".join(rng.choice(us) for _ in range(rng.randrange(0, 3))), unit="".join(rng.choice(us) for _ in range(rng.randrange(1, 4))), suf=rng.choice(SUFFIX), target=rng.choice(TARGETS), stack=stack, n=rng.choice([800, 1500, 3000, 20000]))
    if r < 0.5:
        return dict(what="path", pre=rng.choice(["/", "/static/", "/any/", "/two/", "/m/", "/wsgi/", "/ci/", "/cf/", "/cu/", "/cp/", "/cs/"]), unit="".join(rng.choice(PATHS) for _ in range(rng.randrange(1, 4))), suf=rng.choice(["", "/", "x"]), stack=stack, n=rng.choice([500, 1500]))
    if r < 0.58:
        return dict(what="query", pre=rng.choice(["", "a=", "&"]), unit="".join(rng.choice(QUERIES) for _ in range(rng.randrange(1, 4))), suf=rng.choice(["", "&x=1"]), target=rng.choice(["/all", "/nope", "/any/x/"]), stack=stack, n=rng.choice([800, 2000]))
    if r < 0.7:
        ct = rng.choice(sorted(BODY_UNITS))
        return dict(what="body", ct=ct, unit="".join(rng.choice(BODY_UNITS[ct]) for _ in range(rng.randrange(1, 4))), chunk=rng.choice([1, 7, 64, 1000, 10**9]), stack=stack, n=rng.choice([500, 1500]))
    if r < 0.93:
        return dict(what="count", dim=rng.choice(COUNTS), stack=stack, n=0, chunk=rng.choice([0, 1, 20, 100, 300]))
    return dict(what="data", dim=rng.choice(DATA), n=0, stack=[])


DIR = {}


def worker_setup(mon):
    os.makedirs("pr/sub", exist_ok=True)
    DIR["d"] = os.path.abspath("pr")
    for name, n in (("f.txt", 5000), ("big.txt", 200000)):
        with open("pr/" + name, "wb") as f:
            f.write(bytes(i % 251 for i in range(n)))


class Boom(Exception):
    pass


async def dispatch(request, call_next):
    r = await call_next(request)
    r.headers["x-mw"] = "1"
    return r


async def dispatch_body(request, call_next):
    await request.body()
    return await call_next(request)


class Backend:
    async def authenticate(self, conn):
        conn.headers.get("authorization")
        return None


def middleware(stack):
    make = {
        "base": lambda: Middleware(BaseHTTPMiddleware, dispatch=dispatch),
        "body": lambda: Middleware(BaseHTTPMiddleware, dispatch=dispatch_body),
        "gzip": lambda: Middleware(GZipMiddleware, minimum_size=100, compresslevel=1),
        "session": lambda: Middleware(SessionMiddleware, secret_key="k"),
        "cors": lambda: Middleware(CORSMiddleware, allow_origins=["https://a.org", "https://b.org"], allow_origin_regex=r"https://.*\.c\.org", allow_methods=["*"], allow_headers=["X-A", "X-B"], allow_credentials=True),
        "hosts": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["h", "*.h", "*.example.org"]),
        "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
    }
    return [make[m]() for m in stack]


def endpoints():
    async def file(request):
        return FileResponse(os.path.join(DIR["d"], "f.txt"))

    async def big(request):
        return FileResponse(os.path.join(DIR["d"], "big.txt"))

    async def everything(request):
        request.cookies, request.query_params.multi_items(), str(request.url), request.headers.items(), request.client
        try:
            str(request.base_url), str(request.url_for("any", p="x"))
        except ValueError:  # a Host header that is no host
            pass
        return PlainTextResponse("ok")

    async def any_(request):
        return PlainTextResponse(request.path_params["p"][:5])

    async def raise_(request):
        raise Boom("x")

    async def form(request):
        try:
            async with request.form(max_files=10**9, max_fields=10**9) as f:
                return PlainTextResponse(str(len(f.multi_items())))
        except UnicodeDecodeError:
            return PlainTextResponse("?")

    async def body(request):
        return PlainTextResponse(str(len(await request.body())))

    async def json_(request):
        return PlainTextResponse(str(len(await request.json())))

    async def chunks(request):
        n = 0
        async for c in request.stream():
            n += len(c)
        return PlainTextResponse(str(n))

    return dict(file=file, big=big, all=everything, any=any_, form=form, body=body, json=json_, chunks=chunks, **{"raise": raise_})


def wsgi(environ, start_response):
    start_response("200 OK", [("content-type", "text/plain")])
    n = len(environ["wsgi.input"].read())
    return [b"%d" % n]


def application(stack, extra=()):
    e = endpoints()
    routes = list(extra) + [Route("/" + k, f, methods=["GET", "POST"], name=k) for k, f in e.items() if k != "any"]
    routes += [
        Route("/any/{p:path}", e["any"], name="any"), Route("/two/{a}/{p}", e["any"]), Route("/ci/{p:int}/z", e["raise"]), Route("/cf/{p:float}/z", e["raise"]), Route("/cu/{p:uuid}/z", e["raise"]), Route("/cp/{p:path}/z", e["any"]), Route("/cs/a{p}.y", e["any"]), Route("/two/{p}/{b:int}/{c:float}", e["any"]),
        Mount("/static", StaticFiles(directory=DIR["d"], html=True)), Mount("/m/{q}", routes=[Route("/x/{p}", e["any"])]), Mount("/wsgi", WSGIMiddleware(wsgi)), Host("{s}.h", Router([Route("/x", e["body"])])),
    ]
    return Starlette(routes=routes, middleware=middleware(stack), exception_handlers={Boom: lambda request, exc: PlainTextResponse("boom", 500)} if len(stack) % 2 else {})


def pieces(data, k):
    return [data[i : i + k] for i in range(0, len(data), k)] or [b""]


def deliver(parts):
    return [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]


# what the counted exchanges are answered, when not 200; python-multipart limits the size of a part's headers
OTHER = {"ranges": (206,), "ranges-rev": (206,), "ranges-overlap": (206,), "acrh": (400, 405), "hosts": (400,), "part-headers": (200, 400), "part-header-chunks": (200, 400), "routes": (307,), "redirect-path": (307,), "static-depth": (404,), "handlers": (200, 500), "ws-messages": (None,), "ws-endpoint": (None,), "listeners": (None,)}
STATUS = [0, 0, None]


async def exchange(app, scope, inbox):
    inbox = deque(inbox)
    over = anyio.Event()
    ws = scope["type"] == "websocket"
    seen = STATUS
    seen[:] = [0, 0, None]

    async def receive():
        if inbox:
            return inbox.popleft()
        if ws:
            return {"type": "websocket.disconnect", "code": 1000}
        await over.wait()
        return {"type": "http.disconnect"}

    async def send(m):
        seen[0] += 1
        seen[1] += len(m.get("body", b""))
        seen[2] = m.get("status", seen[2])
        if m["type"] == "http.response.body" and not m.get("more_body", False):
            over.set()

    try:
        await app(scope, receive, send)
    except (Boom, RecursionError):
        pass
    return seen


def multipart(parts):
    return b"".join(b'--b\r\nContent-Disposition: form-data; name="' + n.encode() + b'"' + (b'; filename="x.txt"' if f else b"") + b"\r\n" + extra + b"\r\n" + d + b"\r\n" for n, f, d, extra in parts) + b"--b--\r\n"


MP = ("content-type", "multipart/form-data; boundary=b")
FU = ("content-type", "application/x-www-form-urlencoded")


def build(case, n):
    """-> an async function that does the whole exchange of size n"""
    what = case["what"]
    stack = case["stack"]
    if what == "data":
        return build_data(case, n)
    if what == "count":
        return build_count(case, n)
    hs = [("host", "h")]
    path, query, method, inbox = "/all", "", "GET", deliver([b""])
    rep = lambda c: c.get("pre", "") + c["unit"] * max(1, n // len(c["unit"])) + c.get("suf", "")  # noqa: E731
    if what == "header":
        name, value = case["name"], rep(case)
        path = case["target"]
        if name == "host":
            hs = [("host", value)]
        else:
            hs.append((name, value))
        if name.startswith("access-control"):
            method = "OPTIONS"
            hs += [("origin", "https://a.org")] + ([("access-control-request-method", "GET")] if name.endswith("headers") else [])
        if name == "if-range":
            hs.append(("range", "bytes=0-1"))
        if path == "/form":
            method, inbox = "POST", deliver([b"a=b"])
    elif what == "path":
        path = rep(case)
    elif what == "query":
        path, query = case["target"], rep(case)
        query = query.encode("latin-1")
    elif what == "body":
        method = "POST"
        data = case["unit"].encode("latin-1") * max(1, n // len(case["unit"]))
        ct = case["ct"]
        if ct == "multipart":
            data = b'--b\r\nContent-Disposition: form-data; name="a"; filename="f"\r\n\r\n' + data + b"\r\n--b--\r\n"
            hs.append(MP)
        elif ct == "urlencoded":
            hs.append(FU)
        elif ct == "json":
            data = b"[" + data + b"1]"
        path = {"multipart": "/form", "urlencoded": "/form", "json": "/json", "text": "/body"}[ct]
        inbox = deliver(pieces(data, case["chunk"]))
    app = application(stack)

    async def go():
        return await exchange(app, http_scope(method, path, hs, query=query), inbox)

    return go


def one(app, n, path, hs=(), method="GET", query="", parts=(b"",), scope=None, inbox=None):
    inbox = inbox if inbox is not None else deliver(list(parts))

    async def go():
        return await exchange(app, scope or http_scope(method, path, [("host", "h")] + list(hs), query=query), inbox)

    return go


def build_count(case, n):
    d, stack, k = case["dim"], case["stack"], case["chunk"]
    app = application(stack)
    x = b"v" * k
    if d == "headers":
        return one(app, n, "/all", [(f"x-{i}", "v") for i in range(n)])
    if d == "same-headers":
        return one(app, n, "/all", [("x-same", f"v{i}") for i in range(n)])
    if d == "cookies":
        return one(app, n, "/all", [("cookie", "; ".join(f"c{i}=v" for i in range(n)))])
    if d == "query":
        return one(app, n, "/all", query="&".join(f"c{i}=v" for i in range(n)))
    if d in ("ranges", "ranges-rev", "ranges-overlap"):
        rs = {"ranges": [f"{3 * i}-{3 * i}" for i in range(n)], "ranges-rev": [f"{3 * i}-{3 * i}" for i in range(n)][::-1], "ranges-overlap": [f"{i}-{i + 50}" for i in range(n)]}[d]
        random.Random(n).shuffle(rs) if k == 20 else None
        return one(app, n, "/big", [("range", "bytes=" + ",".join(rs))])
    if d == "etags":
        return one(app, n, "/static/f.txt", [("if-none-match", ", ".join(f'"e{i}"' for i in range(n)))])
    if d == "acrh":
        return one(app, n, "/all", [("origin", "https://a.org"), ("access-control-request-method", "GET"), ("access-control-request-headers", ", ".join(f"x-{i}" for i in range(n)))], "OPTIONS")
    if d == "hosts":
        app = TrustedHostMiddleware(app, allowed_hosts=[f"*.h{i}.org" for i in range(n)])
        return one(app, n, "/all", [])
    if d == "fields":
        return one(app, n, "/form", [FU], "POST", parts=pieces("&".join(f"f{i}=v" for i in range(n)).encode(), k or 1))
    if d == "field-chunks":
        return one(app, n, "/form", [FU], "POST", parts=[b"a="] + [x or b"v"] * n)
    if d == "body-chunks":
        return one(app, n, "/body", [], "POST", parts=[x] * n)
    if d == "empty-chunks":
        return one(app, n, "/body", [], "POST", parts=[b""] * n)
    if d == "stream-chunks":
        return one(app, n, "/chunks", [], "POST", parts=[x] * n)
    if d == "json-chunks":
        return one(app, n, "/json", [], "POST", parts=[b"["] + [b"1," * (k + 1)] * n + [b"1]"])
    if d == "parts":
        return one(app, n, "/form", [MP], "POST", parts=pieces(multipart([(f"f{i}", 0, b"v", b"") for i in range(n)]), 1000))
    if d == "files":
        return one(app, n, "/form", [MP], "POST", parts=pieces(multipart([(f"f{i}", 1, b"v", b"") for i in range(n)]), 1000))
    if d == "part-chunks":
        x = x[:70]  # less than what a spooled file keeps in memory: writing to disk takes another thread for each piece
        return one(app, n, "/form", [MP], "POST", parts=[multipart([("f", 1, b"", b"")])[:-9]] + [x or b"v"] * n + [b"\r\n--b--\r\n"])
    if d == "part-header-chunks":
        return one(app, n, "/form", [MP], "POST", parts=[b'--b\r\nContent-Disposition: form-data; name="f"; filename="x"\r\nX-A: b'] + [x or b"v"] * n + [b"\r\n\r\nv\r\n--b--\r\n"])
    if d == "field-name-chunks":
        return one(app, n, "/form", [FU], "POST", parts=[x or b"v"] * n + [b"=1"])
    if d == "value-chunks":
        m = min(k or 1, 900000 // max(n, 1) or 1)
        return one(app, n, "/form", [MP], "POST", parts=[multipart([("f", 0, b"", b"")])[:-9]] + [b"v" * m] * n + [b"\r\n--b--\r\n"])
    if d == "part-headers":
        return one(app, n, "/form", [MP], "POST", parts=pieces(multipart([("f", 1, b"v", b"X-A: b\r\n" * n)]), 1000))
    if d == "wsgi-body":
        return one(app, n, "/wsgi/x", [], "POST", parts=[x or b"v"] * n)
    if d in ("wsgi-chunks", "wsgi-headers"):

        def w(environ, start_response):
            start_response("200 OK", [("x-a", "b")] * (n if d == "wsgi-headers" else 1))
            return [x] * (n if d == "wsgi-chunks" else 1)

        return one(application(stack, [Mount("/w", WSGIMiddleware(w))]), n, "/w/", [("x-same", "v")] * (n if d == "wsgi-headers" else 0))
    if d in ("response-chunks", "sync-chunks"):

        async def agen():
            for _ in range(n):
                yield x

        async def ep(request):
            return StreamingResponse(agen() if d == "response-chunks" else (x for _ in range(n)))

        return one(application(stack, [Route("/r", ep)]), n, "/r", [("accept-encoding", "gzip")])
    if d == "file-size":
        name = os.path.join(DIR["d"], f"s{n}.bin")
        if not os.path.exists(name):
            with open(name, "wb") as f:
                f.truncate(n * 65536)

        async def ep(request):
            return FileResponse(name)

        return one(application(stack, [Route("/r", ep)]), n, "/r")
    if d in ("set-cookie", "response-headers", "background", "session"):

        async def nothing():
            pass

        async def ep(request):
            r = PlainTextResponse("x")
            if d == "set-cookie":
                for i in range(n):
                    r.set_cookie(f"c{i}", "v")
            elif d == "response-headers":
                for i in range(n):
                    r.headers.append(f"x-{i}", "v")
            elif d == "session" and "session" in request.scope:
                request.session.update({f"k{i}": "v" for i in range(n)})
            else:
                r.background = BackgroundTasks()
                for i in range(n):
                    r.background.add_task(nothing)
            return r

        return one(application(stack, [Route("/r", ep)]), n, "/r", [("accept-encoding", "gzip")])
    if d in ("routes", "route-names"):
        e = endpoints()
        rs = [Route(f"/r{i}/{{p}}", e["any"], name=f"r{i}") for i in range(n)]

        async def ep(request):
            return PlainTextResponse(str(request.url_for(f"r{n - 1}", p="x")))

        app = Starlette(routes=rs + [Route("/last/", ep)], middleware=middleware(stack))
        return one(app, n, "/last/" if d == "route-names" else "/last")
    if d == "mounts":
        e = endpoints()
        rs = [Route("/end", e["body"], name="end")]
        for i in range(n):
            rs = [Mount("/a", routes=rs, name="m")]
        return one(Starlette(routes=rs, middleware=middleware(stack)), n, "/a" * n + "/end")
    if d == "segments":
        return one(app, n, "/any" + "/seg" * n)
    if d == "static-depth":
        return one(app, n, "/static" + "/sub" * n)
    if d in ("middleware", "base-middleware"):

        class Pure:
            def __init__(self, app):
                self.app = app

            async def __call__(self, scope, receive, send):
                await self.app(scope, receive, send)

        e = endpoints()
        app = Starlette(routes=[Route("/body", e["body"], methods=["POST"])], middleware=[Middleware(Pure) if d == "middleware" else Middleware(BaseHTTPMiddleware, dispatch=dispatch) for _ in range(n)])
        return one(app, n, "/body", [], "POST", parts=[b"x"] * 3)
    if d == "body-base":
        e = endpoints()
        app = Starlette(routes=[Route("/body", e["body"], methods=["POST"])], middleware=middleware(["body", "base", "body"]))
        return one(app, n, "/body", [], "POST", parts=[x] * n)
    if d in ("ws-messages", "ws-endpoint"):
        from starlette.endpoints import WebSocketEndpoint

        async def ep(websocket):
            await websocket.accept()
            async for t in websocket.iter_text():
                await websocket.send_text(t)

        class EP(WebSocketEndpoint):
            encoding = "text"

            async def on_receive(self, websocket, data):
                await websocket.send_text(data)

        app = Starlette(routes=[WebSocketRoute("/w", ep if d == "ws-messages" else EP)], middleware=middleware([m for m in stack]))
        return one(app, n, "", scope=ws_scope("/w", [("host", "h")]), inbox=[{"type": "websocket.connect"}] + [{"type": "websocket.receive", "text": "t" * k}] * n)
    if d == "handlers":
        app = Starlette(routes=[Route("/raise", endpoints()["raise"])], exception_handlers={400 + i: lambda request, exc: Response() for i in range(n)})
        return one(app, n, "/raise")
    if d == "listeners":
        ran = []

        async def life():
            app = Starlette(on_startup=[lambda: ran.append(1)] * n, on_shutdown=[lambda: ran.append(1)] * n)
            inbox = deque([{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}])

            async def receive():
                return inbox.popleft()

            async def send(m):
                pass

            await app({"type": "lifespan", "asgi": {}, "state": {}}, receive, send)

        return life
    if d == "redirect-path":
        return one(app, n, "/all" + "/" * 1, query="a" * n)
    raise ValueError(d)


def build_data(case, n):
    d = case["dim"]
    pairs = [(f"k{i}", f"v{i}") for i in range(n)]
    raw = [(f"k{i}".encode(), b"v") for i in range(n)]
    q = "&".join(f"{a}={b}" for a, b in pairs)
    md = ImmutableMultiDict(pairs)

    def work():
        if d == "multidict":
            m = MultiDict(pairs)
            m.multi_items(), list(m), m.getlist("k1"), len(m), dict(m)
        elif d == "multidict-update":
            m = MultiDict(pairs)
            m.update({a: b for a, b in pairs})
            m.update([(a, b) for a, b in pairs])
        elif d == "queryparams":
            QueryParams(pairs)
        elif d == "queryparams-parse":
            QueryParams(q).multi_items()
        elif d == "queryparams-str":
            str(QueryParams(pairs)), repr(QueryParams(pairs))
        elif d == "headers":
            h = Headers(dict(pairs))
            h.items(), h.keys(), h.values(), list(h), len(h), "x" in h, h.get("k1"), h.getlist("k2")
        elif d == "headers-raw":
            h = Headers(raw=raw)
            h.items(), repr(h) if n < 10 else None, h == Headers(raw=list(raw)) if n < 10 else None
        elif d == "mutable-headers-append":
            h = MutableHeaders(raw=[])
            for a, b in pairs:
                h.append(a, b)
            h.raw, h.mutablecopy()
        elif d == "formdata":
            FormData(pairs).multi_items(), repr(FormData(pairs))
        elif d == "url-query":
            u = URL("http://h/p?" + q)
            u.query, str(u.include_query_params(zz=1)), str(u.remove_query_params("k1")), repr(u)
        elif d == "url-include":
            str(URL("http://h/p").include_query_params(**dict(pairs)))
        elif d == "url-host":
            u = URL("http://u:p@" + "a." * n + "org:80/p")
            u.hostname, u.port, str(u.replace(hostname="x", port=1)), repr(u)
        elif d == "url-path":
            u = URL("http://h" + "/a" * n)
            u.path, str(u.replace(scheme="https", path="/x" * n))
        elif d == "url-replace":
            u = URL("http://h/")
            for i in range(n):
                u = u.replace(path=f"/{i}")
        elif d == "config-file":
            name = os.path.join(DIR["d"], f"env{n}")
            if not os.path.exists(name):
                with open(name, "w") as f:
                    f.write("".join(f"{a}={b}\n# c\n" for a, b in pairs))
            c = Config(name)
            c("k1"), c.get(f"k{n - 1}")
        elif d == "environ":
            e = Environ({})
            for a, b in pairs:
                e[a] = b
            len(list(e))
        elif d == "schema":
            async def ep(request):
                """
                summary: x
                """

            s = SchemaGenerator({"openapi": "3.0.0", "info": {}})
            s.get_schema([Route(f"/r{i}", ep, methods=["GET"]) for i in range(n)])
        elif d == "multi-items":
            m = MultiDict(md)
            for a, _ in md.multi_items()[:3]:
                m.pop(a), m.setlist(a, ["1", "2"]), m.append(a, "3"), m.poplist(a)
            m.popitem(), m.setdefault("x", "y"), str(m)
        elif d == "test-client-body":
            async def app(scope, receive, send):
                async def g():
                    for _ in range(n):
                        yield b"xxxxxxxxxx" * 10

                await StreamingResponse(g())(scope, receive, send)

            TestClient(app).get("/")
        else:
            raise ValueError(d)

    async def go():
        work()

    return go


# sizes at which proportional work is short and anything more is not: (for lines, for time)
SIZES = {"mounts": (8, 8), "middleware": (8, 10), "base-middleware": (4, 6), "hosts": (100, 1000), "listeners": (50, 500), "routes": (60, 300), "route-names": (60, 300), "schema": (20, 30), "files": (50, 250), "file-size": (8, 60), "ranges": (50, 250), "ranges-rev": (50, 250), "sync-chunks": (50, 150), "wsgi-chunks": (50, 300), "handlers": (20, 20), "static-depth": (10, 100), "url-replace": (50, 500), "response-chunks": (60, 1000), "body-chunks": (100, 2000), "field-chunks": (100, 2000), "part-chunks": (100, 1500), "part-header-chunks": (100, 2000), "field-name-chunks": (100, 2000), "value-chunks": (100, 2000), "wsgi-headers": (50, 400), "wsgi-body": (100, 2500), "test-client-body": (60, 600), "ws-messages": (60, 1000), "ws-endpoint": (60, 1000), "stream-chunks": (100, 1500), "empty-chunks": (100, 2000), "body-base": (100, 1500), "background": (50, 500), "set-cookie": (50, 300)}
GROUP = {"header": "header values", "path": "paths", "query": "queries", "body": "bodies", "data": "data structures"}
TOOL = 4


class Lines:
    """Lines of the framework executed, in every thread."""

    def __enter__(self):
        self.n = 0
        self.at = {}
        m = sys.monitoring
        m.use_tool_id(TOOL, "vp-lines")

        def line(code, no):
            if not code.co_filename.startswith(HERE):
                return m.DISABLE
            self.n += 1
            self.at[code, no] = self.at.get((code, no), 0) + 1

        m.register_callback(TOOL, m.events.LINE, line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)


def clear():
    tracking.FILES.clear()
    tracking.DISK_OPS.clear()


def cpu(case, n, times):
    best = None
    for _ in range(times):
        go = build(case, n)
        STATUS[2] = None
        gc.collect()
        gc.disable()
        try:
            async def main():
                a = time.process_time()
                await go()
                return time.process_time() - a

            t = anyio.run(main)
        finally:
            gc.enable()
            clear()
        if case["what"] == "count" and STATUS[2] not in OTHER.get(case["dim"], (200,)):
            raise RuntimeError(f"{case['dim']} was answered {STATUS[2]}")  # the case would measure nothing
        best = t if best is None else min(best, t)
    return best


def run(case, mon):
    name = case["dim"] if "dim" in case else f"{case['what']} {case.get('name', '')} {case.get('pre', '')!r} + {case['unit']!r}*n + {case.get('suf', '')!r}"
    n1, n2 = SIZES.get(case.get("dim"), (100, 800)) if "dim" in case else (max(len(case["unit"]) * 4, 100), case["n"])
    tag = case.get("dim") or (case["what"] + "-" + case.get("name", "")).strip("-")
    # ---- lines
    counts = []
    for n in (n1, n1, LINES * n1):
        go = build(case, n)
        with Lines() as lines:
            anyio.run(go)
        clear()
        counts.append((lines.n, lines.at))
    mon.n("exchanges measured", 3)
    (_, _), (a, at1), (b, at2) = counts
    mon.n("lines counted", a + b)
    if b > 1.3 * LINES * a + 300:
        top = sorted(at2.items(), key=lambda kv: LINES * at1.get(kv[0], 0) - kv[1])[:3]
        mon.fail("lines-" + tag, f"{name}: {a} lines executed at size {n1}, {b} at size {LINES * n1}; most at {[(os.path.relpath(c.co_filename, HERE), no, at1.get((c, no), 0), k) for (c, no), k in top]}")
    mon.ok(True, "lines")
    # ---- time
    t1, t2 = cpu(case, n2, 2), cpu(case, n2 * CPU, 1)
    limit = 3 * CPU * t1 + 0.12
    if t2 > limit:
        t1 = max(t1, cpu(case, n2, 3))
        t2 = min(t2, cpu(case, n2 * CPU, 2))
        limit = 3 * CPU * t1 + 0.12
    mon.n("exchanges measured", 3)
    mon.ok(t2 <= limit, "time-" + tag, f"{name}: {t1:.4f} s of CPU at size {n2}, {t2:.3f} s at size {n2 * CPU} (stack {case['stack']}, chunk {case.get('chunk')})")
    mon.n(GROUP.get(case["what"]) or ("websockets" if case["dim"].startswith("ws-") else "declarations" if case["dim"] in ("routes", "route-names", "mounts", "hosts", "middleware", "base-middleware", "handlers", "listeners") else "responses" if case["dim"] in ("response-chunks", "sync-chunks", "file-size", "set-cookie", "response-headers", "background", "session", "wsgi-chunks", "wsgi-headers", "ranges", "ranges-rev", "ranges-overlap") else "bodies"))
    mon.nontrivial(name, case["stack"], case.get("chunk"))
