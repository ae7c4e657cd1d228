from __future__ import annotations

import datetime
import time
from email.utils import parsedate_to_datetime
from http.cookies import CookieError

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Route
from starlette.testclient import TestClient
from starlette.websockets import WebSocket

from vp import gens
from vp.asgi import drive, http_scope, ws_scope

ID = "C35"
PROP = dict(
    title="A cookie that is set comes back with the same value, until it is deleted",
    statement=(
        "For every cookie name and latin-1 value (spaces, quotes and separators included; control characters may be refused), set_cookie sends one Set-Cookie header, which a client returns so that request.cookies (and websocket.cookies) holds exactly that value, together with every other cookie of the request; no value can add a cookie, an attribute or a header. "
        "The header carries exactly the attributes asked for (max-age, expires from a datetime, a text or a number of seconds, path, domain, secure, httponly, samesite) and no other, several cookies are sent in order in separate headers, and a samesite value outside lax, strict and none is refused. "
        "delete_cookie with the same path and domain expires the cookie at once. A malformed piece of a Cookie header never hides or changes the well-formed ones."
    ),
    over=["inputs", "histories"],
    quant="every latin-1 value, token name, combination of attributes, sequence of sets and deletes, and malformed Cookie header",
    why="tests use 'mycookie=myvalue' and a table of fixed malformed headers",
    files=["starlette/responses.py", "starlette/requests.py"],
    mechanism=[("Response.set_cookie / delete_cookie", "starlette/responses.py"), ("cookie_parser / HTTPConnection.cookies", "starlette/requests.py")],
)
TECH = "runtime monitoring: an independent client jar fed with the Set-Cookie headers actually sent, its Cookie header fed back, request.cookies compared with a model"
RULE = "each case is a history of sets and deletes on one client, or one Cookie header; non-trivial when request.cookies was compared"
LEVEL_NOTE = "held on the generated cookies and histories"
BUDGET = {"quick": (400000, 9), "thorough": (4000000, 90)}
REQUIRED = ("cookies set", "cookies returned", "cookies deleted", "attributes compared", "quoted values", "malformed headers", "test client requests", "samesite refused", "expires compared")

NAMES = ["a", "b", "session", "A", "x-y", "a.b", "__Host-id", "a!#$%&'*+-.^_`|~"]


def rvalue(rng):
    return rng.choice(["", "1", "value", "a b", "a;b", "a=b", "a, b", '"q"', '"', "\\", "a\\b", "é\xff", "\x00\x01\x1f\x7f", "a\r\nSet-Cookie: evil=1", "; Path=/evil", "%41", "==", " lead", "trail ", "'", "{\"j\": [1]}", "\\101", '"\\"', gens.header_value(rng), "x" * rng.choice([10, 4000])])


def attrs(rng):
    a = {}
    if rng.random() < 0.4:
        a["max_age"] = rng.choice([0, 1, 10, 86400, -1])
    if rng.random() < 0.4:
        a["expires"] = rng.choice([["int", 10], ["int", 0], ["int", 86400 * 400], ["dt", 1700000000], ["dt", 4000000000], ["str", "Thu, 22 Feb 2035 12:00:12 GMT"]])
    if rng.random() < 0.5:
        a["path"] = rng.choice(["/", "/a", "/a/b", None, "/x y", "/a/", "/a/b/", "//", "a"])
    if rng.random() < 0.3:
        a["domain"] = rng.choice(["example.org", ".example.org", None])
    for k in ("secure", "httponly"):
        if rng.random() < 0.4:
            a[k] = rng.random() < 0.7
    if rng.random() < 0.5:
        a["samesite"] = rng.choice(["lax", "strict", "none", None, "Lax", "STRICT"])
    return a


def fixed(tier):
    out = []
    for i in range(256):
        out.append(dict(kind="attrs", cookies=[["a", chr(i) + "x" + chr(i), {}], ["b", "end", {}]], cls="Response"))
    for c in range(0, 256, 7):
        for v in ("", chr(c), '"' + chr(c), chr(c) * 3 + " "):
            out.append(dict(kind="attrs", cookies=[["n", v, {}]], cls="Response"))
    for a in ({}, {"max_age": 0}, {"max_age": -5}, {"max_age": 10}, {"expires": ["int", 0]}, {"expires": ["int", 10]}, {"expires": ["dt", 1700000000]}, {"expires": ["str", "Thu, 22 Feb 2035 12:00:12 GMT"]}, {"path": None}, {"path": "/p"}, {"path": "/p/"}, {"path": "//"}, {"path": "/a//b/"}, {"domain": "d.test"}, {"secure": True}, {"httponly": True}, {"samesite": None}, {"samesite": "strict"}, {"samesite": "none", "secure": True}, {"samesite": "Lax"},
              {"max_age": 1, "expires": ["int", 1], "path": "/q", "domain": "d", "secure": True, "httponly": True, "samesite": "strict"}):
        for cls in ("Response", "Redirect", "JSON", "Streaming", "File"):
            out.append(dict(kind="attrs", cookies=[["n", "v", a], ["m", "w", {}], ["n", "again", a]], cls=cls))
            out.append(dict(kind="delete", name="n", attrs={k: v for k, v in a.items() if k not in ("max_age", "expires") and (k != "path" or v)}, cls=cls))
    for bad in ("foo", "", "Nonee", "laxx", "lax "):
        out.append(dict(kind="samesite", value=bad))
    for junk in ("", ";", "=", "==", "junk", "=v", '"', "a b=c", "é", "k=", ";;", " ", ",", "\"unterminated", "x=\"", "$Version=1", "a=b=c"):
        for pos in (0, 1, 2):
            out.append(dict(kind="parse", good=[["one", "1"], ["two", "a=b"]], junk=junk, pos=pos, sep="; "))
            out.append(dict(kind="parse", good=[["one", "1"], ["two", ""]], junk=junk, pos=pos, sep=";"))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.5:
        return dict(kind="attrs", cookies=[[rng.choice(NAMES), rvalue(rng), attrs(rng)] for _ in range(rng.randrange(1, 5))], cls=rng.choice(["Response", "Response", "JSON", "Redirect", "Streaming", "File"]))
    if r < 0.6:
        a = attrs(rng)
        return dict(kind="delete", name=rng.choice(NAMES), attrs={k: v for k, v in a.items() if k not in ("max_age", "expires") and (k != "path" or v)}, cls="Response")
    if r < 0.85:
        good = []
        for n in rng.sample(NAMES, rng.randrange(0, 5)):
            good.append([n, rng.choice(["", "1", "v", "a=b", "%41", "a.b", "{}", gens.token(rng)])])
        return dict(kind="parse", good=good, junk=rng.choice(["", "=", "junk", "é=\xff", " ", "\x00", "[]", "a b", ",,", '"x', gens.header_value(rng).replace(";", "").replace("=", "")]), pos=rng.randrange(5), sep=rng.choice(["; ", ";", ";  ", " ; "]))
    hist = []
    for _ in range(rng.randrange(1, 7)):
        name = rng.choice(["a", "b", "c", "x-y"])
        if rng.random() < 0.7:
            hist.append(["set", name, rng.choice(["", "1", "a b", "a;b", '"q"', "é", "\\", "=", "a,b", "x" * 50]), rng.choice(["/", "/", "/p"]), rng.choice([None, 100, None])])
        else:
            hist.append(["delete", name, None, rng.choice(["/", "/", "/p"]), None])
    return dict(kind="client", hist=hist, mw=rng.choice([[], ["gzip"], ["base"], ["base", "gzip"]]), how=rng.choice(["response", "redirect"]))


def make(cls, mon):
    if cls == "JSON":
        return JSONResponse({})
    if cls == "Redirect":
        return RedirectResponse("/x")
    if cls == "Streaming":
        return StreamingResponse(iter([b"x"]))
    if cls == "File":
        with open("f.txt", "w") as f:
            f.write("x")
        return FileResponse("f.txt")
    return Response(b"x")


def kw(a):
    a = dict(a)
    if "expires" in a:
        k, v = a["expires"]
        a["expires"] = datetime.datetime.fromtimestamp(v, datetime.timezone.utc) if k == "dt" else v
    return a


def parse_set_cookie(raw):
    """As a browser does (RFC 6265 section 5.2): -> (name, value as stored, {attribute: value})"""
    parts = raw.split(";")
    name, _, value = parts[0].partition("=")
    at = {}
    for p in parts[1:]:
        k, _, v = p.partition("=")
        at.setdefault(k.strip().lower(), []).append(v.strip())
    return name.strip(), value.strip(), at


def check_set(mon, raw, name, value, a, now, what):
    mon.n("cookies set")
    text = raw.decode("latin-1")
    ok = mon.ok(not any(ord(c) < 32 or ord(c) == 127 for c in text), "control-char", f"{what}: the header holds control characters: {text!r}")
    n, stored, at = parse_set_cookie(text)
    mon.eq(n, name, "name", what)
    want = {}
    if a.get("max_age") is not None:
        want["max-age"] = [str(a["max_age"])]
    path = a.get("path", "/")
    if path is not None:
        want["path"] = [path]
    if a.get("domain") is not None:
        want["domain"] = [a["domain"]]
    for k in ("secure", "httponly"):
        if a.get(k):
            want[k] = [""]
    ss = a.get("samesite", "lax")
    if ss is not None:
        want["samesite"] = [ss]
    got = {k: v for k, v in at.items() if k != "expires"}
    mon.n("attributes compared")
    mon.eq(got, want, "attributes", f"{what}: attributes of {text!r}")
    mon.eq("expires" in at, "expires" in a, "expires", f"{what}: {text!r}")
    if "expires" in a and "expires" in at:
        mon.n("expires compared")
        k, v = a["expires"]
        d = parsedate_to_datetime(at["expires"][0])
        ts = d.timestamp()
        mon.ok(at["expires"][0].endswith("GMT") and len(at["expires"]) == 1, "expires-format", f"{what}: {text!r}")
        if k == "int":
            mon.ok(now - 1 <= ts - v <= now + 30, "expires", f"{what}: expires in {ts - now:.0f} s")
        elif k == "dt":
            mon.eq(ts, float(v), "expires", what)
        else:
            mon.eq(at["expires"][0], v, "expires", what)
    if '"' in stored:
        mon.n("quoted values")
    return stored


def cookies_of(header, mon, what):
    out = []
    for conn in (Request(http_scope(headers=[("cookie", header)])), WebSocket(ws_scope(headers=[("cookie", header)]), None, None), HTTPConnection(http_scope(headers=[("x", "y"), ("cookie", header)]))):
        out.append(conn.cookies)
        mon.ok(conn.cookies == out[-1], "cookies-again", what)
    mon.ok(out[0] == out[1] == out[2], "cookies-kind", f"{what}: cookies differ between kinds of connection: {out}")
    return out[0]


def run(case, mon):
    k = case["kind"]
    if k == "attrs":
        r = make(case["cls"], mon)
        before = list(r.raw_headers)
        now = time.time()
        todo = case["cookies"]
        case = dict(case, cookies=[])
        for name, value, a in todo:
            n = len(r.raw_headers)
            try:
                r.set_cookie(name, value, **kw(a))
                case["cookies"].append([name, value, a])
            except CookieError:
                # the standard library of newer Python versions refuses control characters
                mon.ok(any(ord(c) < 32 or ord(c) == 127 for c in value), "refused", f"set_cookie({name!r}, {value!r}) was refused")
                mon.eq(len(r.raw_headers), n, "refused-headers", "headers after a refused cookie")
                mon.n("control characters refused")
        headers = [h for h in r.raw_headers if h[0] == b"set-cookie"]
        mon.eq([h for h in r.raw_headers if h[0] != b"set-cookie"], before, "other-headers", "headers other than Set-Cookie")
        if not mon.eq(len(headers), len(case["cookies"]), "header-count", f"Set-Cookie headers for {case['cookies']}"):
            return
        jar, model = {}, {}
        for (name, value, a), (_, raw) in zip(case["cookies"], headers):
            jar[name] = check_set(mon, raw, name, value, a, now, f"set_cookie({name!r}, {value!r}, {a})")
            model[name] = value
        t = drive(r, http_scope())
        mon.eq([h for h in t.headers if h[0] == b"set-cookie"], headers, "sent", "Set-Cookie headers sent")
        cookie = "; ".join(f"{n}={v}" for n, v in jar.items())
        mon.n("cookies returned", len(model))
        mon.eq(cookies_of(cookie, mon, cookie), model, "round-trip", f"request.cookies for the Cookie header {cookie!r}")
        mon.nontrivial(case["cls"], tuple(tuple(sorted(c[2])) for c in case["cookies"]))
    elif k == "delete":
        r = make(case["cls"], mon)
        now = time.time()
        r.delete_cookie(case["name"], **case["attrs"])
        headers = [h for h in r.raw_headers if h[0] == b"set-cookie"]
        mon.eq(len(headers), 1, "header-count", "Set-Cookie headers of delete_cookie")
        n, stored, at = parse_set_cookie(headers[0][1].decode("latin-1"))
        mon.eq(n, case["name"], "name", "delete_cookie")
        gone = at.get("max-age") == ["0"]
        if "expires" in at:
            gone = gone and parsedate_to_datetime(at["expires"][0]).timestamp() <= now + 2
        mon.ok(gone, "not-expired", f"delete_cookie sent {headers[0][1]!r}")
        a = case["attrs"]
        want = {"path": [a.get("path", "/")]}
        if a.get("domain"):
            want["domain"] = [a["domain"]]
        for f in ("secure", "httponly"):
            if a.get(f):
                want[f] = [""]
        if a.get("samesite", "lax"):
            want["samesite"] = [a.get("samesite", "lax")]
        mon.eq({x: v for x, v in at.items() if x not in ("expires", "max-age")}, want, "attributes", f"attributes of delete_cookie({a})")
        mon.n("cookies deleted")
        mon.nontrivial("delete", tuple(sorted(a)))
    elif k == "samesite":
        r = Response()
        for call in (lambda: r.set_cookie("a", "b", samesite=case["value"]), lambda: r.delete_cookie("a", samesite=case["value"])):
            try:
                call()
                mon.fail("samesite", f"samesite={case['value']!r} was accepted: {r.raw_headers}")
            except AssertionError:
                mon.n("samesite refused")
        mon.eq([h for h in r.raw_headers if h[0] == b"set-cookie"], [], "samesite", "headers after a refused cookie")
    elif k == "parse":
        chunks = [f"{n}={v}" for n, v in case["good"]]
        chunks.insert(min(case["pos"], len(chunks)), case["junk"])
        header = case["sep"].join(chunks)
        got = cookies_of(header, mon, header)
        mon.n("malformed headers")
        jn = case["junk"].split("=")[0].strip()
        for n, v in case["good"]:
            if n != jn:
                mon.eq(got.get(n), v, "hidden-by-junk", f"cookie {n!r} in the Cookie header {header!r}")
        extra = set(got) - {n for n, _ in case["good"]} - {jn, ""}
        mon.ok(not extra, "invented", f"cookies {extra} in the Cookie header {header!r}")
        mon.nontrivial("parse", len(case["good"]), case["pos"], case["sep"])
    else:
        run_client(case, mon)


def run_client(case, mon):
    seen = []
    todo = []

    async def act(request):
        op = todo[0]
        r = PlainTextResponse("ok" * 500) if case["how"] == "response" else RedirectResponse("/p/see", 303)
        if op[0] == "set":
            r.set_cookie(op[1], op[2], path=op[3], max_age=op[4])
        else:
            r.delete_cookie(op[1], path=op[3])
        return r

    async def see(request):
        seen.append(dict(request.cookies))
        return JSONResponse(dict(request.cookies))

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            return await call_next(request)

    app = Starlette(routes=[Route("/p/act", act), Route("/p/see", see), Route("/see", see)], middleware=[Middleware({"gzip": GZipMiddleware, "base": Base}[m]) for m in case["mw"]])
    client = TestClient(app)
    model = {}
    for op in case["hist"]:
        todo[:] = [op]
        client.get("/p/act")
        if op[0] == "set":
            model[op[1], op[3]] = op[2]
            mon.n("cookies set")
        else:
            model.pop((op[1], op[3]), None)
            mon.n("cookies deleted")
        mon.n("test client requests")
        for path in ("/see", "/p/see"):
            client.get(path)
            visible = {}
            for (n, p), v in model.items():
                if p == "/" or path.startswith("/p"):
                    visible.setdefault(n, set()).add(v)
            got = seen[-1]
            mon.eq(set(got), set(visible), "jar-names", f"cookies seen by {path} after {case['hist']}")
            for n in set(got) & set(visible):
                mon.n("cookies returned")
                mon.ok(got[n] in visible[n], "jar-value", f"cookie {n} is {got[n]!r}, set to {visible[n]!r}")
    mon.nontrivial("client", len(case["hist"]), tuple(case["mw"]), len(model))
