from __future__ import annotations

from urllib.parse import urlsplit

from starlette.middleware.trustedhost import TrustedHostMiddleware

from vp import gens
from vp.asgi import host_kind, http_scope, ws_scope
from vp.props.c13_routing import drive_any

ID = "C22"
PROP = dict(
    title="Only requests for trusted hosts reach the application",
    statement=(
        "With TrustedHostMiddleware, an HTTP or WebSocket request reaches the application exactly when its Host header without the port equals one of the allowed hosts, is a subdomain of a '*.domain' wildcard, or '*' is allowed; look-alikes, missing or empty hosts, anything that is not a host with an optional port, and the bare domain of a wildcard do not. "
        "Any other request gets 400 without the application running, or, if www_redirect is on and the host with 'www.' in front is allowed, a redirect to the same URL (scheme, port, path, query) on that host. "
        "Other scopes always pass, and wildcards anywhere but in front are rejected at construction."
    ),
    over=["inputs", "configurations"],
    quant="every list of patterns, Host value (look-alike suffixes and prefixes, ports, IPv6, case-exact), scope type, www_redirect setting",
    why="tests try about five host/pattern pairs",
    files=["starlette/middleware/trustedhost.py"],
    mechanism=[("host matching", "starlette/middleware/trustedhost.py:TrustedHostMiddleware")],
)
TECH = "runtime monitoring: recorded decisions judged by an independent host-matching oracle, application executions counted"
RULE = "each case is a pattern list and 20 hosts; non-trivial when decisions were compared with the oracle"
LEVEL_NOTE = "held on the generated patterns and hosts; hosts that differ from a pattern only in letter case are left out"
BUDGET = {"quick": (60000, 7), "thorough": (500000, 100)}
REQUIRED = ("requests", "trusted", "refused", "www redirects", "look-alikes refused", "websocket", "bad patterns", "ipv6", "malformed hosts refused")

PATTERNS = ["example.com", "example.org", "*.example.com", "*.a.example.com", "localhost", "127.0.0.1", "www.example.com", "www.example.org", "*.org", "*", "[::1]", "xn--bcher-kva.example", "a", "*.com", "testserver", "www.a.b.example.net"]
HOSTS = ["example.com", "example.org", "www.example.com", "www.example.org", "a.example.com", "b.a.example.com", "c.b.a.example.com", "localhost", "127.0.0.1", "[::1]", "[::2]", "a", "b", "testserver", "evil.com", "a.b.example.net", "xn--bcher-kva.example", "com", "org"]
LOOK = ["example.com:x@evil.com", "example.com:80@evil.com", "evil.com/.example.com", "evil.com?.example.org", "evil.com#.a.example.com", "x@evil.com/.com", "evil.com\\.example.com", "localhost:x", "a:99999", "testserver:-1", "example.com:[", "example.com:80/a?b", "www.example.com/", "[::1]:a", "u@example.com", "127.0.0.1:80:80", "example.org:1_0", "example.com.evil.com", "evilexample.com", "example.comx", "xexample.com", "example", ".com", "example.com.", "evil.com/example.com", "a-example.com", "evila.example.co", "*.example.com", "*", "www.", "www", "www.www.example.com", "example.com@evil.com", "example,com", "exampleXcom", " example.com", "evil.com#.example.org", "", "localhost.", "localhos", "ocalhost", "1127.0.0.1", "27.0.0.1", "evil[::1]", "[::1]x", "[::1].evil.com", "[", "]", "[]", "wwwexample.com"]
PORTS = ["", "", "", ":80", ":443", ":8000", ":1"]
BAD = [["example.*"], ["*example.com"], ["a.*.com"], ["**"], ["*."+"a*"], ["ok.com", "*bad.com"], ["*.*.com"], ["foo*"]]


def fixed(tier):
    out = []
    hosts = [h + p for h in HOSTS + LOOK for p in ("", ":8000")] + [None]
    for pats in [[p] for p in PATTERNS] + [["example.com", "*.example.com"], ["www.example.com", "example.com"], ["www.example.com", "*.example.com"], [], ["example.org", "www.example.com"]]:
        for www in (True, False):
            for ty in ("http", "websocket"):
                out.append(dict(pats=pats, www=www, hosts=hosts, type=ty, path="/a/b", query="x=1&y=%20", scheme="http", root=""))
    out.append(dict(pats=None, www=True, hosts=hosts, type="http", path="/", query="", scheme="https", root=""))
    for b in BAD:
        out.append(dict(bad=b))
    return out


def gen(rng, tier):
    pats = [rng.choice(PATTERNS[:9] + PATTERNS[10:]) for _ in range(rng.randrange(0, 5))]
    if rng.random() < 0.05:
        pats.append("*")
    for _ in range(rng.randrange(0, 3)):
        d = ".".join(gens.lower(rng, 1, 5) for _ in range(rng.randrange(1, 4)))
        pats.append(rng.choice(["", "", "*.", "www."]) + d)
    rng.shuffle(pats)
    hosts = []
    for _ in range(20):
        r = rng.random()
        if r < 0.55 and pats:
            h = rng.choice(pats).removeprefix("*.")
            h = rng.choice([h, h, h, "a." + h, "a.b." + h, "x" + h, h + "x", h + ".evil.com", h.removeprefix("www."), "www." + h, "." + h, h[1:], h[:-1], h.replace(".", "x", 1), h + "."])
        else:
            h = rng.choice(HOSTS + LOOK)
        hosts.append(h + rng.choice(PORTS))
    ty = rng.choice(["http", "http", "websocket"])
    return dict(pats=pats, www=rng.random() < 0.7, hosts=hosts, type=ty, path=rng.choice(["/", "/a", "/a/b/", "/a-b_c.d/e"]), query=rng.choice(["", "x=1", "a=%2F&b", "next=http://example.com/"]), scheme=rng.choice(["http", "https"]), root=rng.choice(["", "", "/root"]))


def strip_port(h):
    if h.startswith("["):
        end = h.find("]")
        if end > 0 and h.rfind("]") == end and (h[end + 1 :] == "" or h[end + 1] == ":"):
            return h[: end + 1]
    return h.partition(":")[0]


def run(case, mon):
    ran = []

    async def app(scope, receive, send):
        ran.append(scope["type"])
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 299, "headers": []})
            await send({"type": "http.response.body", "body": b""})
        elif scope["type"] == "websocket":
            await send({"type": "websocket.accept"})

    if "bad" in case:
        mon.n("bad patterns")
        try:
            TrustedHostMiddleware(app, allowed_hosts=case["bad"])
        except AssertionError:
            mon.nontrivial(case["bad"])
            return
        mon.fail("bad-pattern-accepted", f"allowed_hosts={case['bad']} was accepted")
        return
    pats = case["pats"]
    mw = TrustedHostMiddleware(app, allowed_hosts=pats, www_redirect=case["www"]) if pats is not None else TrustedHostMiddleware(app)
    pats = ["*"] if pats is None else pats
    drive_any(mw, {"type": "lifespan", "asgi": {}}, "asyncio")
    mon.eq(ran, ["lifespan"], "lifespan-scope", "lifespan scope")
    shapes = []
    for h in case["hosts"]:
        ran.clear()
        hs = [("accept", "*/*")] + ([("host", h)] if h is not None else [])
        ws = case["type"] == "websocket"
        path = case["root"] + case["path"]
        sch = {"http": "ws", "https": "wss"}[case["scheme"]] if ws else case["scheme"]
        sc = (ws_scope if ws else http_scope)(path=path, headers=hs, query=case["query"], scheme=sch, root_path=case["root"], **({"extensions": {"websocket.http.response": {}}} if ws else {}))
        t = drive_any(mw, sc, "asyncio")
        mon.n("requests")
        if ws:
            mon.n("websocket")
        what = f"allowed_hosts={pats} www_redirect={case['www']} {case['type']} Host {h!r}"
        if t.exc is not None:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        host = strip_port(h or "")
        if host.startswith("["):
            mon.n("ipv6")
        okay = "*" in pats or host in pats
        for p in pats:
            if p.startswith("*.") and host.endswith(p[1:]):
                okay = True
        kind = host_kind(h or "")
        if h and kind == "malformed" and "*" not in pats:
            mon.n("malformed hosts refused", okay)
            okay, host = False, ""
        elif okay and kind == "unclear" and "*" not in pats:
            continue
        if okay and any(host == p[1:] for p in pats if p.startswith("*.")):
            continue  # a host that starts with a dot
        shapes.append((host, okay))
        if okay:
            mon.n("trusted")
            mon.eq(ran, [case["type"]], "trusted-refused", what)
            continue
        mon.n("refused")
        if (h or "") in LOOK:
            mon.n("look-alikes refused")
        mon.eq(ran, [], "untrusted-reached-the-application", what)
        starts = [m for m in t.sent if m["type"].endswith("http.response.start")]
        if not mon.eq(len(starts), 1, "no-response", f"{what}: {t.sent}"):
            continue
        status = starts[0]["status"]
        if kind == "unclear":
            mon.ok(status in (301, 302, 303, 307, 308, 400), "refusal-status", f"{what}: status {status}")
            continue
        hd = {k.decode(): v.decode("latin-1") for k, v in starts[0]["headers"]}
        if case["www"] and "www." + host in pats and host:
            mon.n("www redirects")
            mon.ok(status in (301, 302, 303, 307, 308), "www-redirect", f"{what}: status {status}")
            u = urlsplit(hd.get("location", ""))
            mon.eq((u.scheme, u.netloc, u.path, u.query), (sch, "www." + h, path, case["query"]), "www-location", f"{what}: {hd}")
        else:
            mon.eq(status, 400, "refusal-status", what)
    mon.nontrivial(case["type"], pats, shapes)
