from __future__ import annotations

from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware

from vp import gens
from vp.asgi import http_scope, query_text, ws_scope
from vp.props.c13_routing import drive_any

ID = "C23"
PROP = dict(
    title="HTTPSRedirectMiddleware sends every insecure request to the same secure URL",
    statement=(
        "Every http or ws request is answered with a 307 redirect - the application never runs - whose Location is the same URL under https or wss: same host, path and query, the default ports 80 and 443 removed and any other port kept, IPv6 hosts still bracketed, and the server address used when there is no Host header. "
        "Requests that are already secure, and other scopes, reach the application untouched."
    ),
    over=["inputs"],
    quant="every scheme, Host value (names, ports, IPv4, IPv6) or server tuple, path, query and root path",
    why="tests try four URLs",
    files=["starlette/middleware/httpsredirect.py", "starlette/datastructures.py"],
    mechanism=[("redirect", "starlette/middleware/httpsredirect.py:HTTPSRedirectMiddleware"), ("URL.replace / URL(scope=)", "starlette/datastructures.py:URL")],
)
TECH = "runtime monitoring: recorded redirects compared with independently composed URLs"
RULE = "each case is 20 requests; non-trivial when redirect targets were compared"
LEVEL_NOTE = "held on the generated requests; malformed Host values and paths that need quoting (see C15) are left out"
BUDGET = {"quick": (60000, 6), "thorough": (300000, 60)}
REQUIRED = ("redirects", "passed", "ports kept", "default ports dropped", "ipv6", "no host header", "websocket")

HOSTS = ["example.com", "a.b.example.org", "localhost", "127.0.0.1", "[::1]", "[2001:db8::1]", "testserver", "xn--bcher-kva.example", "EXAMPLE.com", "a-b_c"]
PORTS = [None, None, 80, 443, 8000, 8080, 8443, 1, 65535, 4430, 800, 180, 8]
PATHS = ["/", "/a", "/a/b/", "//double", "/a//b", "/x.y-z_~", "/443", "/:80/", "/http://a", "/a:80"]
QUERIES = ["", "", "a=1", "a=1&b=2", "next=http%3A%2F%2Fx%3A80%2F", "next=http://example.com:80/", "x=a%20b", "a", "=", "a=%3F%23", "u=ws://h:80", "q=\u00e9", "q=\u00c3\u00a9&\u00ff=%20", "\u0080"]


def req(scheme, host, port, path, query, root="", hosted=True):
    return dict(scheme=scheme, host=host, port=port, path=path, query=query, root=root, hosted=hosted)


def fixed(tier):
    out = []
    for scheme in ("http", "https", "ws", "wss"):
        for h in HOSTS:
            for p in PORTS[1:]:
                for hosted in (True, False):
                    out.append(dict(reqs=[req(scheme, h, p, pa, q, hosted=hosted) for pa, q in zip(PATHS, QUERIES)]))
    return out


def gen(rng, tier):
    reqs = []
    for _ in range(20):
        h = rng.choice(HOSTS) if rng.random() < 0.5 else ".".join(gens.lower(rng, 1, 6) for _ in range(rng.randrange(1, 4)))
        reqs.append(req(rng.choice(["http", "http", "ws", "https", "wss"]), h, rng.choice(PORTS) if rng.random() < 0.7 else rng.randrange(1, 65536), rng.choice(PATHS) if rng.random() < 0.5 else "/" + gens.token(rng, 0, 9), rng.choice(QUERIES), rng.choice(["", "", "/root"]), rng.random() < 0.75))
    return dict(reqs=reqs)


def run(case, mon):
    ran = []

    async def app(scope, receive, send):
        ran.append(scope)

    mw = HTTPSRedirectMiddleware(app)
    mon_scope = {"type": "lifespan", "asgi": {}}
    drive_any(mw, mon_scope, "asyncio")
    mon.ok(len(ran) == 1 and ran[0] is mon_scope, "lifespan-scope", "lifespan scope did not pass")
    shapes = []
    for r in case["reqs"]:
        ran.clear()
        ws = r["scheme"].startswith("ws")
        port = r["port"]
        bare = r["host"].strip("[]")
        hs, server = [], ("10.0.0.1", 9)
        if r["hosted"]:
            hs = [("host", r["host"] + (f":{port}" if port else ""))]
        else:
            if "[" in r["host"]:
                continue
            port = port or {"http": 80, "ws": 80, "https": 443, "wss": 443}[r["scheme"]]
            server = (bare, port)
            mon.n("no host header")
        path = r["root"] + r["path"]
        sc = (ws_scope if ws else http_scope)(path=path, headers=hs, query=r["query"], scheme=r["scheme"], root_path=r["root"], server=server, **({"extensions": {"websocket.http.response": {}}} if ws else {}))
        before = dict(sc)
        t = drive_any(mw, sc, "asyncio")
        what = f"{r}"
        if t.exc:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        if ws:
            mon.n("websocket")
        if r["scheme"] in ("https", "wss"):
            mon.n("passed")
            mon.ok(len(ran) == 1 and dict(ran[0]) == before, "secure-request-not-passed", f"{what}: sent {t.sent}")
            continue
        mon.eq(len(ran), 0, "application-ran", what)
        starts = [m for m in t.sent if m["type"].endswith("http.response.start")]
        if not mon.eq([m["status"] for m in starts], [307], "status", what):
            continue
        if port in (80, 443):
            netloc = r["host"].lower()
            mon.n("default ports dropped")
        else:
            netloc = r["host"] + (f":{port}" if port else "")
            if port:
                mon.n("ports kept")
        if "[" in netloc:
            mon.n("ipv6")
        want = ("wss" if ws else "https") + "://" + netloc + path + ("?" + r["query"] if r["query"] else "")
        loc = dict(starts[0]["headers"]).get(b"location", b"").decode()
        if "?" in loc:
            before, _, sent = loc.partition("?")
            loc = before + "?" + query_text(sent, r["query"])
        i = loc.find("://") + 3
        j = loc.find("/", i)
        mon.n("redirects")
        mon.eq(loc[:i] + loc[i:j].lower() + loc[j:], want.replace(netloc, netloc.lower(), 1), "location", what)
        shapes.append(loc)
    mon.nontrivial(shapes[:4])
