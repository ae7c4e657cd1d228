from __future__ import annotations

import atexit
import base64
import os
import random
import re
import shutil
import tempfile
from functools import lru_cache

import anyio

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.middleware.wsgi import WSGIMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.staticfiles import StaticFiles
from starlette.templating import Jinja2Templates
from starlette.websockets import WebSocketDisconnect

from vp.asgi import Trace, chunking, drive, host_kind, http_scope, query_text, run_async, split_body, ws_scope
from vp import gens

ID = "C55"
PROP = dict(
    title="Nothing a client sends makes the framework itself fail",
    statement=(
        "Whatever bytes a client puts into a request - its method, path, query, Host and every other header, cookies, credentials, conditions, ranges, content types, form and JSON bodies, WebSocket handshakes and messages - and however these are combined, no part of the framework answers with a server error or raises towards the server because of it: "
        "routing, redirects, static files, file, template and streaming responses, sessions, authentication, CORS, trusted hosts, compression, WSGI and class-based endpoints serve, refuse or redirect the request, and every property of a request can be read; only form() (400), json() and a WebSocketEndpoint of another encoding (closed with 1003, and the documented RuntimeError) refuse what they cannot parse. "
        "A Host header that is not a host with an optional port is treated as missing: whatever it holds, the URL of a request has its path and query, and its host is that of the Host header or of the server - with TrustedHostMiddleware an allowed one - so that no redirect leads elsewhere."
    ),
    over=["inputs", "configurations"],
    quant="every method, path, query, header, cookie, body and frame (bytes), every stack of shipped middleware and kind of endpoint",
    why="tests send well-formed requests and a few malformed ones, to one component at a time",
    files=["starlette/requests.py", "starlette/datastructures.py", "starlette/formparsers.py", "starlette/routing.py", "starlette/staticfiles.py", "starlette/responses.py", "starlette/endpoints.py", "starlette/middleware/sessions.py", "starlette/middleware/cors.py", "starlette/middleware/gzip.py", "starlette/middleware/trustedhost.py", "starlette/middleware/httpsredirect.py", "starlette/middleware/wsgi.py", "starlette/middleware/authentication.py", "starlette/templating.py"],
    mechanism=[("URL of a scope", "starlette/datastructures.py:URL"), ("cookie_parser", "starlette/requests.py:cookie_parser"), ("request form", "starlette/requests.py:Request._get_form"), ("range parsing", "starlette/responses.py:FileResponse._parse_range_header"), ("conditions", "starlette/staticfiles.py:StaticFiles.is_not_modified"), ("session loading", "starlette/middleware/sessions.py:SessionMiddleware"), ("trusted hosts", "starlette/middleware/trustedhost.py:TrustedHostMiddleware"), ("frame decoding", "starlette/endpoints.py:WebSocketEndpoint.decode")],
)
TECH = "runtime monitoring: hostile requests (mutated pieces of the grammar of each header, path, form and frame) driven through generated stacks of all shipped middleware; a monitor of the server boundary flags every server error and exception, and what the endpoints read is compared with the scope"
RULE = "each case is a stack of middleware and 12 hostile requests; non-trivial when their answers were judged"
LEVEL_NOTE = "held on the generated requests; integers of more than 4300 digits (known finding of C13) and JSON nested deeper than Python's parser goes are left out"
BUDGET = {"quick": (30000, 14), "thorough": (600000, 180)}
REQUIRED = ("requests", "answered 2xx", "answered 3xx", "answered 4xx", "urls compared", "malformed hosts", "malformed hosts ignored", "forms read", "forms refused", "json refused", "websockets", "frames refused", "sessions", "trusted hosts", "ranges", "conditions", "preflights", "wsgi", "templates", "cookies read", "static", "redirects judged")

MW = ["session", "auth", "cors", "cors-any", "gzip", "trusted", "trusted-wild", "https", "base", "base-body", "requires"]
KINDS = ["echo", "form", "json", "int", "float", "uuid", "file", "static", "template", "redirect", "cookie", "session", "class", "wsgi", "stream", "host", "missing", "slash", "ws-text", "ws-bytes", "ws-json", "ws-any", "error"]
ALLOWED = ["example.com", "www.example.org", "[::1]", "*.example.net"]

HOSTS = ["example.com", "example.com:8000", "www.example.org", "example.org", "a.example.net", "[::1]", "[::1]:80", "testserver", "", ":80", "h:", "h:abc", "h:99999", "h:-1", "h:+5", "h: 5", "h:1_0", "h:65535", "[::1", "]", "[]", "[", "[::1]x", "[1.2.3.4]", "[v1.x]", "[::1%25eth0]", "u@h", "example.com:x@evil.com", "example.com:80@evil.com", "evil.com/.example.net", "evil.com?.example.net", "evil.com#.example.net", "evil.com\\.example.net", "x@evil.com/.example.net", "example.com/evil?x#y", "example.com:80/p?x", "a b", "a\tb", "a,b", "a%2fb", "\xe9\xff", "\xe2\x84\x80", "..", ".", "a..b", "a_b", "{x}", "*", "a.h.org", ".h.org", "x/y.h.org", "::1", "example.com,evil.com", "EXAMPLE.com", "http://example.com", "//evil.com", "example.com:", "example.com:[", "xn--", "0", "1.2.3.4", "h:٣".encode().decode("latin-1")]
PATHS = ["", "/", "//", "///", "/.", "/..", "/../..", "/%", "/%2e%2e", "/?", "/#", "/a//b", "//evil.com", "/\\evil.com", "/\x00", "/\t\n\r", "/\xe9", "/\ufffd", "/\u202e", "/😀", "/" + "a" * 300, "/" + "a/" * 200, "/{x}", "/{", "/}", "/a;b=c", "/a:b", "/@", "/~", "/ ", "/a b", "/*", "/d", "/d/", "/d/index.html", "/a.txt", "/a.txt/", "/a.txt/x", "/a.txt\x00", "/c\x80", "/con", "/" + "\xff" * 90, "/d/../a.txt", "/./a.txt", "/1", "/0", "/-1", "/1.5", "/1e999", "/" + "9" * 400, "/" + "9" * 4300, "/1." + "9" * 400, "/00000000-0000-0000-0000-000000000000", "/0" * 3, "/" + "0" * 36, "/" + "-" * 36, "/" + "0" * 31 + "-----", "/" + "-" * 32, "/0-0-0-0-0", "/{00000000-0000-0000-0000-000000000000}", "/urn:uuid:00000000-0000-0000-0000-000000000000", "/00000000-0000-0000-0000-00000000000g", "/" + "0" * 32, "/1.", "/1..2", "/1e5", "/.5", "/" + "٣", "/1_0", "/inf", "/nan", "/0x1", "/ 1", "/1\n"]
QUERIES = ["", "a=1", "a", "&", "=", "&&=&=", "a=%", "a=%zz", "%ff=%fe", "a=%ed%a0%80", "\xff=\xfe", "a=1&a=2", "+", "?", "#", "a=b=c", ";", "a;b", "%00", "to=//evil.com", "to=\r\nx: y", "v=\"\\;,", "v=%0d%0a", "a" * 3000, "&" * 900, "a=1&" * 3000, "&" * 3000, "a[" * 200, "a=" + "%f0%9f%98%80" * 50, "[]", "a[0]=1", "\t", " ", "{}", "%"]
COMMON = ["", " ", ",", ";", "=", "\"", "\"\"", "'", "\\", "*", "-", ":", "/", "\t", "\x7f", "\x80\xff", "a" * 5000, ",,,,", ";;;;", "====", "a=b", "a;b", "a,b", "0", "-1", "1" * 400, "1e999", "nan", "inf", "null", "None", "%", "%00", "%ff", "{}", "[]", "()", "<>", "@", "=?utf-8?q?=ff?=", "\xe9", "٣".encode().decode("latin-1")]
HEADERS = {
    "cookie": ["a=1", "a=1; b=2", "a", "=", "=a", "; ;", "a=\"b", "a=\"b\\", "a=\"\\303\\251\"", "a=\"\\999\"", "a=\"\\0\"", "session=", "session=x", "session=.", "session=..", "session=a.b.c", "session=e30=.x.y", "session=bnVsbA==.aaaa.bbbb", "session=\xff", "$Version=1; a=b", "a=b; a=c", "expires=x; path=/", "a=b;a=c;;", "\"a\"=b", "a b=c d", "session=\"x\"", "session=%", "session=" + "A" * 4000, "session=-.-.-", "session=e30.Zo_x8A.AAAA"],
    "authorization": ["Basic", "Basic ", "Basic dXNlcjpwdw==", "Basic !", "Basic \xff", "basic dXNlcg==", "Bearer x", "Basic /w==", "Basic dXNlcjpwdw", " ", "Basic  a b"],
    "range": ["bytes=0-1", "bytes=", "bytes", "bytes=-", "bytes=--", "bytes=a-b", "bytes=0-", "bytes=-0", "bytes=-1", "bytes=1-0", "bytes=0-0,2-2", "bytes=0-0,0-0", "bytes=99-", "bytes=0-1,", "bytes=,", "bytes= 0 - 1", "octets=0-1", "bytes=0-1-2", "bytes==0-1", "=", "bytes=0x0-1", "bytes=" + "9" * 5000 + "-", "bytes=-" + "9" * 5000, "bytes=0-" + "9" * 5000, "bytes=\xb2-\xb3", "bytes=+0-1", "bytes=1_0-", "bytes=0-1;", "Bytes=0-1", "bytes=" + "0-0," * 300, "bytes=0.0-1", "bytes=٣-".encode().decode("latin-1")],
    "if-range": ["\"x\"", "W/\"x\"", "Thu, 01 Jan 1970 00:00:00 GMT", "x"],
    "if-none-match": ["*", "\"x\"", "W/\"x\"", "\"x\",\"y\"", "\"", "W/", "\"a,b\"", ",\"x\",", "x", "W/W/\"x\""],
    "if-modified-since": ["Thu, 01 Jan 1970 00:00:00 GMT", "Thu, 99 Jan 1970 00:00:00 GMT", "Thu, 01 Jan 99999 00:00:00 GMT", "Thu, 01 Jan 0000 00:00:00 GMT", "1", "now", "Thu, 01 Jan 1970 99:99:99 GMT", "Thu, 01 Jan 2040 00:00:00 +9999", "Thu, 01 Jan 2040 00:00:00 -999999", "Thursday, 01-Jan-70 00:00:00 GMT", "Thu Jan  1 00:00:00 1970", "Thu, 00 Foo 2000", "Thu, 31 Feb 2020 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 -2359", "Mon, 01 Jan 0001 00:00:00 +2359", "Thu, 01 Jan 1970 00:00 GMT", "01 Jan -1 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:60 GMT", "0 0 0 0 0", "Jan", "Thu, 1 Jan 1970 0:0:0 GMT", "Thu,01Jan1970 000000GMT", "Thu, 01 Jan 2999 00.00.00 GMT", "Thu, 01 Jan 1970 00:00:00 ZZZ", "Thu, 01 Jan 1970 a:b:c GMT", "Thu, aa Jan bbbb 00:00:00 GMT", "Thu, 01 Jan " + "9" * 400 + " 00:00:00 GMT", "Thu, 01 Jan 1970 00:00:00 +" + "9" * 400],
    "origin": ["http://example.com", "null", "*", "http://", "http://[", "\xff", "http://a.b:99999", "https://x.example.org"],
    "access-control-request-method": ["GET", "get", "", "PUT", "*", "\xff", "GET, POST", "A" * 2000],
    "access-control-request-headers": ["x-a", "X-A, X-B", ",", " , ,", "*", "\xff", "a" * 3000, "x-a,\tx-b", "(x)", "authorization"],
    "access-control-request-private-network": ["true"],
    "accept": ["text/html", "*/*", "text/html;q=x", ";", "/", "\xff"],
    "accept-encoding": ["gzip", "gzip;q=0", "gzip;q=x", "gzip;q=", "gzip;q", "gzip;;", "*;q=0", "*", "identity;q=0", "GZIP", "gzip;q=1e999", "gzip;q=nan", "gzip; q = 1", "q=1", ";q=1", "gzip;q=-1", "gzip;q=\xb2", "x-gzip, ,gzip;q=0.5", "gzip;q=0.0.0", "gzip;q=٣".encode().decode("latin-1")],
    "content-type": ["text/plain", "application/json", "application/json; charset=utf-16", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-16", "multipart/form-data", "multipart/form-data;", "multipart/form-data; boundary", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/form-data; boundary=b", "multipart/form-data; boundary=\"b\"", "multipart/form-data; boundary=\xff", "multipart/form-data; boundary*=utf-8''b", "multipart/form-data; boundary*0=b; boundary*1=c", "multipart/form-data; boundary*=x'y'%ff", "multipart/form-data; boundary=b; boundary=c", "multipart/form-data; boundary=b; charset=nope", "multipart/form-data; boundary=b; charset=", "multipart/form-data; boundary=b; charset=utf-16", "multipart/form-data; boundary=b; charset=idna", "multipart/form-data; boundary=b; charset=base64", "multipart/form-data; boundary=b; charset=\x00", "multipart/form-data; boundary=b; charset=punycode", "multipart/form-data; boundary=b; charset=undefined", "multipart/form-data; boundary=b; charset=rot13", "multipart/form-data; boundary=b; charset*=utf-8''latin-1", "multipart/form-data; boundary=b; charset=unicode_escape", "multipart/form-data; boundary=b; charset=\xe9", "multipart/form-data; boundary=b; charset=..", "multipart/form-data; boundary=" + "b" * 3000, "multipart/mixed; boundary=b", "multipart/form-data, text/plain", "Multipart/Form-Data; Boundary=b", "multipart/form-data ; boundary = b", "/", ";", "multipart/form-data; boundary=b c", "multipart/form-data; boundary= ", "multipart/form-data;boundary=-"],
    "content-length": ["0", "-1", "x", "9" * 30, "1, 1", "+1", ""],
    "transfer-encoding": ["chunked", "x"],
    "content-encoding": ["gzip", "x"],
    "expect": ["100-continue"],
    "connection": ["close", "upgrade"],
    "upgrade": ["websocket"],
    "sec-websocket-protocol": ["a", "a, b", ",", "\xff"],
    "sec-websocket-key": ["x", ""],
    "x-forwarded-for": ["1", "x, y"],
    "x-forwarded-proto": ["https", "x"],
    "forwarded": ["for=_x;proto=https"],
    "referer": ["http://[", "x"],
    "user-agent": ["x"],
    "host": HOSTS,
    "date": ["x"],
    "te": ["trailers"],
    "x-http-method-override": ["DELETE"],
    "proxy": ["http://evil.com"],
    "content_length": ["1"],
    "x_a": ["1"],
}
METHODS = ["GET", "GET", "GET", "GET", "POST", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH", "TRACE", "CONNECT", "get", "*", "G3T", "__CLASS__", "DISPATCH", "SCOPE", "METHOD_NOT_ALLOWED", "A" * 200, "_", "POST\xff"]
PART_HEADS = ["Content-Disposition: form-data; name=\"a\"", "Content-Disposition: form-data; name=\"f\"; filename=\"x.txt\"", "Content-Disposition: form-data; name=\"f\"; filename=\"\"", "Content-Disposition: form-data; name=f; filename*=utf-8''%e2%82%ac", "Content-Disposition: form-data; name*=utf-8''a", "Content-Disposition: form-data; name*=nope''a", "Content-Disposition: form-data; name*0=a; name*1=b", "Content-Disposition: form-data; name", "Content-Disposition: form-data", "Content-Disposition:", "Content-Disposition: ;;;", "Content-Disposition: attachment; filename=x", "Content-Disposition: form-data; name=\"\xff\"", "Content-Disposition: form-data; name=\"f\"; filename=\"\xff\xfe\"", "Content-Disposition: form-data; name=\"a\\\"b\"", "Content-Disposition: form-data; name=\"a", "Content-Disposition: form-data; name=\"f\"; filename=\"C:\\x\\y.txt\"", "Content-Type: text/plain", "Content-Type: \xff", "Content-Type:", "X: y", "X:", ": y", "X", "\xff: y", "Content-Transfer-Encoding: base64", "Content-Length: x", "Content-Disposition: form-data; name=_charset_", "content-disposition: form-data; name=\"f\"; filename=../../x", "Content-Disposition: form-data; name=\"f\"; filename*=utf-8''%ff", "Content-Disposition: form-data; filename=x; name=\"a\"; name=\"b\"", "Content-Disposition: form-data; name=\"\""]
PART_DATA = ["", "v", "\xff\xfe", "\x00", "--b", "\r\n--b", "--", "\r\n", "a" * 3000, "\ud83d".encode("utf-8", "surrogatepass").decode("latin-1"), "+ADw-", "xn--a", "\\ud800", "%ff"]
JSONS = ["", "{}", "[]", "null", "{", "\"\\ud800\"", "\xff\xfe", "nan", "NaN", "-", "1e999", "\xef\xbb\xbf{}", "{\"a\":1}", "\x00", "[" * 50, "'a'", "9" * 400, "\"\xc3\xa9\"", "\"\xed\xa0\x80\"", "{\"a\":1,\"a\":2}", " ", "9" * 5000]
FRAMES = ["", "x", "{}", "[1]", "null", "{", "\x00", "NaN", "\"\\ud800\"", "a" * 3000, "\xff", "\u20ac", "1e999", "[" * 50, "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16")]

DIR = [None]


def worker_setup(mon):
    d = tempfile.mkdtemp(prefix="vp-c55-")
    os.makedirs(os.path.join(d, "s", "d"))
    for name, text in (("s/a.txt", "0123456789"), ("s/d/index.html", "<p>index</p>"), ("s/404.html", "<p>lost</p>"), ("t.html", "{{ request.url }} {{ request.headers }} {{ request.cookies }} {{ request.query_params }} {{ url_for('echo', p='x') }} {{ url_for('echo', p='x').include_query_params(a=request.query_params.get('a')) }}")):
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    DIR[0] = d
    atexit.register(shutil.rmtree, d, True)


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        if "Authorization" not in conn.headers:
            return
        try:
            scheme, credentials = conn.headers["Authorization"].split()
            if scheme.lower() != "basic":
                return
            decoded = base64.b64decode(credentials).decode("ascii")
        except ValueError:
            raise AuthenticationError("Invalid basic auth credentials")
        return AuthCredentials(["authenticated"]), SimpleUser(decoded.partition(":")[0])


def facts(request):
    url = request.url
    return dict(url=str(url), parts=[url.scheme, url.netloc, url.path, url.query, url.fragment, url.hostname, url.port, url.username, url.password, url.is_secure], base=str(request.base_url), base_path=request.base_url.path, repr=repr(url),
                made=[str(url.replace(path="/z")), str(url.replace(port=81)), str(url.include_query_params(z=1)), str(url.remove_query_params("a")), str(request.url_for("echo", p="x")), str(request.url_for("echo", p="x").include_query_params(a=1))],
                headers=[list(h) for h in request.headers.items()], keys=len(request.headers.keys()), cookies=sorted(request.cookies.items()), query=request.query_params.multi_items(), again=str(request.query_params), client=request.client and list(request.client), params={k: str(v) for k, v in request.path_params.items()},
                user=request.user.display_name if "user" in request.scope else None, session=dict(request.session) if "session" in request.scope else None)


SEEN = []


def see(request):
    SEEN.append(facts(request))


async def echo(request):
    see(request)
    return JSONResponse(SEEN[-1])


def threaded(request):
    see(request)
    return PlainTextResponse(SEEN[-1]["url"].encode("utf-8", "replace") * 20)


async def form(request):
    see(request)
    out = []
    async with request.form() as f:
        for k, v in f.multi_items():
            out.append([k, v if isinstance(v, str) else [v.filename, v.content_type, len(await v.read()), v.size, list(v.headers.items())]])
    SEEN[-1]["form"] = out
    return JSONResponse(len(out))


async def read_json(request):
    see(request)
    try:
        await request.json()
    except ValueError:
        return PlainTextResponse("not JSON", status_code=422)
    return PlainTextResponse("JSON")


async def file(request):
    return FileResponse(os.path.join(DIR[0], "s/a.txt"), filename=request.query_params.get("a"), background=BackgroundTask(lambda: None))


async def cookie(request):
    r = PlainTextResponse("x" * 600)
    for v in request.cookies.values():
        r.set_cookie("c", re.sub("[\x00-\x1f\x7f]", "", v))
    r.headers["x-echo"] = request.headers.get("x-echo", "")
    r.delete_cookie("d")
    return r


async def session(request):
    if "session" in request.scope:
        request.session["n"] = len(request.session)
        request.session["cookies"] = dict(request.cookies)
        request.session["path"] = request.url.path
    return await echo(request)


async def redirect(request):
    return RedirectResponse(request.query_params.get("to", request.url))


async def template(request):
    return Jinja2Templates(directory=DIR[0]).TemplateResponse(request, "t.html")


async def stream(request):
    chunks = [chunk async for chunk in request.stream()]

    async def gen():
        for chunk in chunks:
            yield chunk
        yield request.url.path

    return StreamingResponse(gen(), media_type="text/plain")


async def error(request):
    raise HTTPException(418, detail=str(request.query_params) + request.url.path)


class Class(HTTPEndpoint):
    async def get(self, request):
        return await echo(request)

    def post(self, request):
        return threaded(request)


def wsgi(environ, start_response):
    body = environ["wsgi.input"].read()
    assert all(isinstance(v, str) for k, v in environ.items() if k.startswith("HTTP_"))
    start_response("200 OK", [("Content-Type", "text/plain")])
    return [environ["PATH_INFO"].encode("latin-1"), str(len(body)).encode()]


def ws(kind):
    class E(WebSocketEndpoint):
        encoding = None if kind == "any" else kind

        async def on_connect(self, websocket):
            see(websocket)
            subs = websocket.scope["subprotocols"]
            await websocket.accept(subprotocol=subs[0] if subs else None)

        async def on_receive(self, websocket, data):
            if kind == "bytes":
                await websocket.send_bytes(data)
            elif kind == "json":
                await websocket.send_json(data)
            else:
                await websocket.send_text(data)

    return E


async def dispatch(request, call_next):
    see(request)
    return await call_next(request)


async def dispatch_body(request, call_next):
    await request.body()
    response = await call_next(request)
    response.headers["x-path"] = str(len(request.url.path))
    return response


async def not_found(request, exc):
    see(request)
    return PlainTextResponse("lost: " + request.url.path, status_code=404)


MIDDLEWARE = {
    "session": Middleware(SessionMiddleware, secret_key="k"),
    "auth": Middleware(AuthenticationMiddleware, backend=Backend()),
    "cors": Middleware(CORSMiddleware, allow_origins=["http://example.com"], allow_origin_regex="https://.*\\.example\\.org", allow_methods=["GET", "PUT"], allow_headers=["x-a"], allow_credentials=True),
    "cors-any": Middleware(CORSMiddleware, allow_origins=["*"], allow_methods=["*"], allow_headers=["*"], allow_credentials=True),
    "gzip": Middleware(GZipMiddleware, minimum_size=10),
    "trusted": Middleware(TrustedHostMiddleware, allowed_hosts=ALLOWED),
    "trusted-wild": Middleware(TrustedHostMiddleware, allowed_hosts=["*.example.net", "*.com"], www_redirect=False),
    "https": Middleware(HTTPSRedirectMiddleware),
    "base": Middleware(BaseHTTPMiddleware, dispatch=dispatch),
    "base-body": Middleware(BaseHTTPMiddleware, dispatch=dispatch_body),
}


@lru_cache(200)
def build(mws, lost):
    static = os.path.join(DIR[0], "s")
    sub = [
        Route("/echo{p:path}", echo, methods=["GET", "POST", "PUT", "PATCH"], name="echo"),
        Route("/form{p:path}", form, methods=["GET", "POST", "PUT"]),
        Route("/json{p:path}", read_json, methods=["GET", "POST", "PUT"]),
        Route("/int/{n:int}", threaded),
        Route("/float/{n:float}", threaded),
        Route("/uuid/{n:uuid}", threaded),
        Route("/file{p:path}", file),
        Mount("/static", StaticFiles(directory=static, html=True)),
        Mount("/plain", StaticFiles(directory=static)),
        Route("/template{p:path}", template),
        Route("/redirect{p:path}", redirect),
        Route("/cookie{p:path}", cookie),
        Route("/session{p:path}", session),
        Route("/class{p:path}", Class),
        Mount("/wsgi", WSGIMiddleware(wsgi)),
        Route("/stream{p:path}", stream, methods=["GET", "POST"]),
        Route("/error{p:path}", error),
        Route("/slash/", echo),
        Route("/noslash", echo),
        WebSocketRoute("/ws-text{p:path}", ws("text")),
        WebSocketRoute("/ws-bytes{p:path}", ws("bytes")),
        WebSocketRoute("/ws-json{p:path}", ws("json")),
        WebSocketRoute("/ws-any{p:path}", ws("any")),
        Host("{h}.h.org", Router([Route("/host{p:path}", echo)]), name="h"),
    ]
    return Starlette(routes=[Mount("/m", Router(sub)), *sub], middleware=[MIDDLEWARE[m] for m in mws], exception_handlers={404: not_found} if lost else {}, debug=False)


def mutate(rng, s, pool=COMMON):
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.3:
            s = s[:i] + s[i + 1 :]
        elif r < 0.5:
            s = s[:i] + chr(rng.choice(list(range(32, 127)) + [9, 0x80, 0xA0, 0xE9, 0xFF])) + s[i:]
        elif r < 0.7:
            s = s[:i] + rng.choice(pool) + s[i:]
        elif r < 0.8:
            s = s[:i]
        elif r < 0.9:
            s = s[i:] + s[:i]
        else:
            s = s + rng.choice(["", ",", ";", ", "]) + s
    return s[:9000]


def value(rng, name):
    pool = HEADERS.get(name, COMMON)
    s = rng.choice(pool if rng.random() < 0.8 else COMMON)
    if rng.random() < 0.45:
        s = mutate(rng, s)
    if rng.random() < 0.1:
        s = s + rng.choice([",", ", ", ";", "; ", " "]) + rng.choice(pool)
    return re.sub("[\x00\r\n]", "", s.encode("latin-1", "ignore").decode("latin-1"))


def body(rng, kind, headers):
    if kind == "json":
        return mutate(rng, rng.choice(JSONS))
    if kind != "form" and rng.random() < 0.7:
        return rng.choice(["", "x", "a=1"])
    r = rng.random()
    if r < 0.3:
        headers.append(["content-type", rng.choice(["application/x-www-form-urlencoded"] * 3 + HEADERS["content-type"][3:5])])
        return mutate(rng, rng.choice(QUERIES), QUERIES)
    headers.append(["content-type", rng.choice(["multipart/form-data; boundary=b"] * 6 + HEADERS["content-type"]) if rng.random() < 0.8 else value(rng, "content-type")])
    out = []
    for _ in range(rng.randrange(0, 4)):
        out.append("--b\r\n" + "".join(h + "\r\n" for h in [rng.choice(PART_HEADS[:17]) if rng.random() < 0.5 else rng.choice(PART_HEADS[:2])] + [rng.choice(PART_HEADS) for _ in range(rng.choice([0, 0, 1, 2]))]) + "\r\n" + rng.choice(PART_DATA) + "\r\n")
    out.append("--b--\r\n")
    text = "".join(out)
    return mutate(rng, text, PART_HEADS + PART_DATA + ["\r\n", "\r", "\n", "--b", "--b--", "\r\n\r\n"]) if rng.random() < 0.5 else text


def request(rng, kind=None, **force):
    kind = kind or rng.choice(KINDS)
    headers = []
    if rng.random() < 0.9:
        headers.append(["host", value(rng, "host") if rng.random() < 0.6 else rng.choice(HOSTS[:7])])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        name = rng.choice(list(HEADERS)) if rng.random() < 0.95 else gens.token(rng).lower()
        if name != "content-type":
            headers.append([name, value(rng, name)])
    pick = {"file": ("range", "if-range", "if-none-match"), "static": ("range", "if-range", "if-none-match", "if-modified-since", "if-modified-since"), "cookie": ("cookie", "x-echo"), "session": ("cookie",), "stream": ("accept-encoding",)}.get(kind)
    if pick and rng.random() < 0.8:
        name = rng.choice(pick)
        headers.append([name, value(rng, name)])
    method = "GET" if kind in ("file", "static", "template", "cookie", "session", "redirect", "slash") and rng.random() < 0.8 else rng.choice(METHODS)
    if kind in ("form", "json"):
        method = rng.choice(["POST", "PUT"])
    if rng.random() < 0.06:
        method = "OPTIONS"
        for name in ("origin", "access-control-request-method", "access-control-request-headers"):
            headers.append([name, value(rng, name)])
    content = body(rng, kind, headers)
    path = rng.choice(PATHS)
    if rng.random() < 0.2:
        path += rng.choice(PATHS)
    if kind not in ("missing", "slash"):
        path = "/" + {"static": rng.choice(["static", "plain"])}.get(kind, kind) + path
    elif kind == "slash":
        path = rng.choice(["/slash", "/noslash/", "/noslash//", "/static/d"]) + rng.choice(["", "", "", "/", "//"])
    else:
        path = path if path.startswith("/") else "/" + path
    if rng.random() < 0.3:
        path = "/m" + path
    q = rng.choice(QUERIES)
    if rng.random() < 0.4:
        q = mutate(rng, q, QUERIES)
    rng.shuffle(headers)
    d = dict(kind=kind, method=method, path=path, query=re.sub("[\x00\r\n# ]", "", q.encode("latin-1", "ignore").decode("latin-1")), headers=headers, body=content.encode("latin-1", "ignore").decode("latin-1"), seed=rng.randrange(10**6), server=rng.choice([["srv", 80], ["srv", 80], ["10.0.0.1", 8000], ["/run/x.sock", None], None]), frames=[[rng.choice("tb"), mutate(rng, rng.choice(FRAMES), FRAMES)] for _ in range(rng.randrange(0, 4))] if kind.startswith("ws") else [])
    d.update(force)
    return d


def fixed(tier):
    rng = random.Random(55)
    reqs = []
    for h in HOSTS:
        for kind in ("echo", "slash", "static", "host"):
            reqs.append(request(rng, kind, headers=[["host", h]], method="GET", path={"echo": "/echo/a", "slash": "/m/slash", "static": "/static/d", "host": "/host/a"}[kind]))
    for name, values in HEADERS.items():
        if name == "host":
            continue
        for v in values + COMMON:
            for kind, path in {"cookie": [("session", "/session"), ("cookie", "/cookie")], "range": [("file", "/file"), ("static", "/static/a.txt")], "if-range": [("file", "/file")], "if-modified-since": [("static", "/static/a.txt"), ("static", "/plain/a.txt")], "if-none-match": [("static", "/plain/a.txt")], "content-type": [("form", "/form")]}.get(name, [("echo", "/echo")]):
                v2 = re.sub("[\x00\r\n]", "", v)
                reqs.append(request(rng, kind, path=path, headers=[["host", "example.com"], [name, v2]] + ([["origin", "http://example.com"]] if name.startswith("access") else []) + ([["range", "bytes=0-1"]] if name == "if-range" else []), method="POST" if kind == "form" else "OPTIONS" if name.startswith("access") else "GET", **({"body": "--b\r\n" + PART_HEADS[0] + "\r\n\r\n\xe9v\r\n--b--\r\n"} if kind == "form" else {})))
    for p in PATHS:
        for kind in ("echo", "static", "file", "wsgi", "missing", "int", "float", "uuid", "template", "error"):
            pre = "" if kind == "missing" else "/" + kind
            reqs.append(request(rng, kind, path=(pre + p) or "/", method="GET", headers=[["host", "example.com"]]))
    for q in QUERIES:
        for kind in ("echo", "wsgi", "redirect", "template", "error", "slash", "file"):
            reqs.append(request(rng, kind, method="GET", query=re.sub("[\x00\r\n# ]", "", q), path="/m/slash" if kind == "slash" else "/" + kind))
    for ph in PART_HEADS:
        for data in PART_DATA:
            reqs.append(request(rng, "form", method="POST", path="/form", headers=[["content-type", "multipart/form-data; boundary=b"]], body="--b\r\n" + ph + "\r\n\r\n" + data + "\r\n--b--\r\n"))
    for ph in PART_HEADS:
        reqs.append(request(rng, "form", method="POST", path="/form", headers=[["content-type", "multipart/form-data; boundary=b"]], body="--b\r\n" + PART_HEADS[0] + "\r\n" + ph + "\r\n\r\nv\r\n--b--\r\n"))
    for j in JSONS:
        reqs.append(request(rng, "json", method="POST", path="/json", body=j))
    for k in ("text", "bytes", "json", "any"):
        for f in FRAMES:
            for t in "tb":
                reqs.append(request(rng, "ws-" + k, path="/ws-" + k, headers=[["host", "example.com"]], frames=[[t, f]]))
    for m in METHODS:
        for kind in ("echo", "class", "static", "wsgi", "host", "form"):
            reqs.append(request(rng, kind, method=m, path="/" + kind))
    out = []
    stacks = [[], ["session", "auth", "cors", "gzip", "base"], ["https"], ["trusted"], ["trusted-wild", "session", "base-body", "cors-any"], ["base", "base-body", "gzip"]]
    for i in range(0, len(reqs), 25):
        part = reqs[i : i + 25]
        for s in stacks[:2] + ([stacks[2], stacks[3], stacks[4]] if i < 4 * len(HOSTS) + 25 else [stacks[2 + i // 25 % 4]]):
            out.append(dict(mws=s, lost=i // 25 % 2, requests=part))
    return out


def gen(rng, tier):
    mws = rng.sample(MW[:-1], rng.choice([0, 1, 1, 2, 3, 4]))
    return dict(mws=mws, lost=rng.randrange(2), requests=[request(rng) for _ in range(12)])


def trusted(hostname, mw):
    pats = ALLOWED if mw == "trusted" else ["*.example.net", "*.com"]
    return any(hostname == p.strip("[]") or p[0] == "*" and hostname.endswith(p[1:]) for p in pats)


def ws_drive(app, scope, frames):
    t = Trace()

    async def main():
        n = [0]

        async def receive():
            n[0] += 1
            if n[0] == 1:
                return {"type": "websocket.connect"}
            if n[0] - 2 < len(frames):
                k, v = frames[n[0] - 2]
                return {"type": "websocket.receive", "text": v} if k == "t" else {"type": "websocket.receive", "bytes": v.encode("latin-1", "ignore")}
            return {"type": "websocket.disconnect", "code": 1000}

        async def send(m):
            t.events.append(("send", m))

        try:
            await app(scope, receive, send)
        except (WebSocketDisconnect,):
            pass
        except Exception as exc:
            t.exc = exc

    run_async("asyncio", 0, main)
    return t


def run(case, mon):
    app = build(tuple(case["mws"]), case["lost"])
    shapes = []
    for r in case["requests"]:
        shapes.append((r["kind"], one(case, r, app, mon)))
    mon.nontrivial(sorted(set(map(str, shapes))), case["mws"])


def one(case, r, app, mon):
    mws, kind = case["mws"], r["kind"]
    hosts = [v for k, v in r["headers"] if k == "host"]
    host = hosts[0] if hosts else None
    hk = host_kind(host) if host is not None else "missing"
    server = r["server"]
    path = r["path"]
    if hk != "host" and re.sub("[\t\r\n]", "", path).startswith("//") and (server is None or server[1] is None):
        server = ["srv", 80]  # a relative URL cannot hold such a path
    rng = random.Random(r["seed"])
    is_ws = kind.startswith("ws-")
    mk = ws_scope if is_ws else http_scope
    kw = dict(path=path, headers=r["headers"], query=r["query"], server=None if server is None else tuple(server), scheme="ws" if is_ws else "http")
    if is_ws:
        subs = [s.strip() for k, v in r["headers"] if k == "sec-websocket-protocol" for s in v.split(",") if s.strip()]
        scope = mk(subprotocols=subs, extensions={"websocket.http.response": {}} if r["seed"] % 2 else {}, **kw)
    else:
        scope = mk(r["method"], **kw)
    del SEEN[:]
    mon.n("requests")
    what = f"{mws} {r['method'] if not is_ws else 'WebSocket'} {path[:80]!r} ?{r['query'][:60]!r} {[(k, v[:80]) for k, v in r['headers']]} server {server} body {r['body'][:200]!r} frames {[(k, v[:40]) for k, v in r['frames']]}"
    if is_ws:
        t = ws_drive(app, scope, r["frames"])
    else:
        data = r["body"].encode("latin-1")
        t = drive(app, scope, chunks=split_body(data, chunking(rng, len(data))))
    refused = is_ws and t.sent and t.sent[-1] == {"type": "websocket.close", "code": 1003, "reason": t.sent[-1].get("reason", "")}
    if refused:
        mon.n("frames refused")
        mon.ok(kind in ("ws-text", "ws-bytes", "ws-json") and r["frames"], "refused-frame", f"{what}: closed with 1003")
    if t.exc is not None and not (refused and type(t.exc) is RuntimeError):
        mon.fail(f"exception-{type(t.exc).__name__}", f"{what}: raised {t.exc!r:.300}")
        return "raised"
    starts = [m for k, m in t.events if k == "send" and m["type"] in ("http.response.start", "websocket.http.response.start")]
    if is_ws:
        mon.n("websockets")
        mon.ok(not any(m["type"] == "websocket.close" and m.get("code") == 1011 for m in t.sent), "server-error", f"{what}: closed with 1011")
        mon.ok(bool(t.sent), "no-answer", what)
    else:
        mon.eq(len(starts), 1, "responses", what)
        mon.ok(t.complete, "incomplete", f"{what}: {str(t.sent)[:300]}")
    status = starts[0]["status"] if starts else 101
    if status >= 500:
        mon.fail("server-error", f"{what}: answered {status} {t.body[:200]!r}")
        return status
    mon.n(f"answered {status // 100}xx")
    tally(r, status, mon, mws)
    for f in list(SEEN):
        check(case, r, f, host, hk, server, path, is_ws, mon, what)
    loc = [v for k, v in (starts[0].get("headers") or []) if k.lower() == b"location"] if starts else []
    if loc and kind != "redirect":
        judge_redirect(loc[0].decode("latin-1"), case, host, hk, server, mon, what)
    return status


def tally(r, status, mon, mws):
    kind = r["kind"]
    names = {k for k, v in r["headers"]}
    if kind == "form" and status == 200:
        mon.n("forms read")
    if kind == "form" and status == 400:
        mon.n("forms refused")
    if kind == "json" and status == 422:
        mon.n("json refused")
    if kind == "session" and "session" in mws:
        mon.n("sessions")
    if kind in ("file", "static") and "range" in names:
        mon.n("ranges")
    if kind == "static" and names & {"if-none-match", "if-modified-since"}:
        mon.n("conditions")
    if r["method"] == "OPTIONS" and "access-control-request-method" in names:
        mon.n("preflights")
    if kind in ("wsgi", "static") and status < 400:
        mon.n(kind)
    if kind == "template" and status == 200:
        mon.n("templates")
    if "trusted" in mws or "trusted-wild" in mws:
        mon.n("trusted hosts")


def server_netloc(server):
    if server is None or server[1] is None:
        return ""
    return server[0] if server[1] == 80 else f"{server[0]}:{server[1]}"


def judge_redirect(loc, case, host, hk, server, mon, what):
    """No redirect of the framework leads to another host than the one the request was for."""
    m = re.fullmatch(r"(?:(?:https?|wss?):)?//([^/?#\\]*).*|([^:/?#]*(?:[/?#].*)?)", loc, re.S)
    if not mon.ok(m, "redirect-elsewhere", f"{what}: redirected to {loc[:200]!r}"):
        return
    mon.n("redirects judged")
    net = m[1] or ""
    own = server_netloc(server)
    okay = {own, own.removesuffix(":80"), own.removesuffix(":443")}
    if hk != "malformed" and host is not None:
        from urllib.parse import quote

        okay = {a for h in (host, re.sub(r":(0*80|0*443)?$", "", host)) for a in (h, h.lower(), "www." + h, quote(h, safe="[]:%!$&'()*+,;="))}
        if hk == "unclear":
            okay |= {own} | {a.lower() for a in okay}
    mon.ok(net in okay, "redirect-elsewhere", f"{what}: redirected to {loc[:200]!r}, allowed {okay}")


def check(case, r, f, host, hk, server, path, is_ws, mon, what):
    mon.n("urls compared")
    scheme, netloc, upath, query, fragment, hostname = f["parts"][:6]
    own = server_netloc(server)
    if hk == "host":
        mon.eq(netloc, host, "url-host", what)
    elif hk == "malformed":
        mon.n("malformed hosts")
        if mon.eq(netloc, own, "malformed-host-in-url", f"{what}: url {f['url'][:200]!r}"):
            mon.n("malformed hosts ignored")
    elif hk == "missing":
        mon.eq(netloc, own, "url-server", what)
    else:
        mon.ok(netloc in (host, own), "url-host", f"{what}: url {f['url'][:200]!r}")
    if not set("?#%\t\r\n") & set(path) and not (not netloc and path.startswith("//")):
        mon.eq(upath, path, "url-path", what)
        mon.eq(query_text(query, r["query"].replace("\t", "")), r["query"].replace("\t", ""), "url-query", what)
        mon.eq(fragment, "", "url-fragment", what)
    mon.eq(f["headers"], [list(h) for h in r["headers"]], "headers", what)
    if f["cookies"]:
        mon.n("cookies read")
    for m in case["mws"]:
        if m.startswith("trusted"):
            inner = case["mws"].index(m) < min([case["mws"].index(b) for b in ("base",) if b in case["mws"]] + [99])
            if inner:
                mon.ok(hostname is not None and trusted(hostname, m) or hk == "unclear" and trusted((host or "").split(":")[0], m) or hk == "host" and trusted(host.split(":")[0], m), "untrusted-host", f"{what}: url {f['url'][:200]!r} reached the application behind {m}")
