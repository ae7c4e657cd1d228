from __future__ import annotations

from urllib.parse import quote, unquote, urlsplit

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute

from vp import gens
from vp.asgi import drive, http_scope, query_text, ws_scope
from vp.props.c13_routing import drive_any

ID = "C15"
PROP = dict(
    title="Request URLs, base URL and url_for are right at any mount depth and prefix",
    statement=(
        "For every request to an application served below any root path and nested through any mounts, the request's url is the scheme, host (Host header, else server address, default ports omitted, else none), complete path and query of the original request, "
        "base_url is the application's own root, and url_for() is the base_url followed by the reversed path of a name of the outermost application, with a websocket scheme for websocket routes - all identical wherever in the stack they are evaluated, "
        "middleware before and after routing included. Mounted applications see the full path unchanged and a root_path that is the server's root path plus the matched prefix; a connection is a read-only mapping of its scope, and "
        "its client, state, path and query parameters are those of the scope."
    ),
    over=["inputs", "programs"],
    quant="every mount nesting, root path, scheme, host header or server address, query, observer position",
    why="tests check one or two nestings and never the combination of prefix, depth, host source and position",
    files=["starlette/requests.py", "starlette/routing.py", "starlette/datastructures.py", "starlette/applications.py", "starlette/_utils.py"],
    mechanism=[("HTTPConnection.url/base_url/url_for", "starlette/requests.py:HTTPConnection"), ("URL from scope", "starlette/datastructures.py:URL.__init__"), ("Mount child scope", "starlette/routing.py:Mount.matches"), ("get_route_path", "starlette/_utils.py:get_route_path")],
)
TECH = "runtime monitoring: observers at every layer of a nested application record URLs and scopes, compared with an independent model"
RULE = "each case is a chain of 0-4 mounts below a root path and one request; non-trivial when at least one observer was compared"
LEVEL_NOTE = "held on the generated nestings and requests"
BUDGET = {"quick": (60000, 11), "thorough": (600000, 120)}
REQUIRED = ("observers", "base urls", "url_for results", "mounted root paths", "websocket observers", "default ports", "missing hosts", "queries outside ASCII")

PORTS = {"http": 80, "https": 443, "ws": 80, "wss": 443}


def case0(**k):
    c = dict(chain=[["/a", "router", "m1"], ["/b", "starlette", "m2"]], root="", scheme="http", host="testserver", server=["srv", 80], query="", tail="x", kind="http", names=None)
    c.update(k)
    return c


def fixed(tier):
    out = []
    for root in ("", "/root", "/a", "/r/s", "/a/b", "/é"):
        for kind in ("http", "ws", "app"):
            for scheme in ("http", "https"):
                for host in ("testserver", "h:8080", "[::1]:99", None):
                    for chain in ([], [["/a", "routes", "m1"]], [["/a", "router", "m1"], ["/a", "starlette", None]], [["", "router", "m1"], ["/{t}", "routes", "m2"]], [["/r", "starlette", "m1"], ["/s", "starlette", "m2"], ["/a/b", "routes", "m3"]]):
                        out.append(case0(root=root, kind=kind, scheme=scheme, host=host, chain=chain, server=["srv", 443 if host is None else 81], query=["a=1&b=%20", "a=1&b=%20", "a=\u00e9\u00ff", "\u00c3\u00a9"][len(out) % 4] if kind == "http" else ""))
    for srv in (["srv", 80], ["srv", 443], ["srv", 8000], None, ["1.2.3.4", 1]):
        for scheme in ("http", "https"):
            for kind in ("http", "ws"):
                out.append(case0(host=None, server=srv, scheme=scheme, kind=kind))
    # known finding: the decoded path is not quoted again
    for tail in ("a?b", "a#b", "100%25", "%41"):
        out.append(case0(tail=tail, kf=True))
    return out


SEG = ["a", "b", "ab", "x-y", "v1", "é", "a b", "{t%d}", "1"]


def gen(rng, tier):
    chain = []
    for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        path = "".join("/" + (rng.choice(SEG) % () if False else rng.choice(SEG)) for _ in range(rng.choice([0, 1, 1, 2])))
        n = 0
        while "{t%d}" in path:
            path = path.replace("{t%d}", "{t%d_%d}" % (i, n), 1)
            n += 1
        chain.append([path, rng.choice(["routes", "router", "starlette"]), rng.choice([None, "m%d" % i, "m"])])
    root = rng.choice(["", "", "/root", "/a", "/a/b", "/x/y/z", "/é", "/v1"])
    return dict(chain=chain, root=root, scheme=rng.choice(["http", "https"]), host=rng.choice([None, "testserver", "example.org:8443", "h:80", "h:443", "[::1]", "user.x"]), server=rng.choice([["srv", 80], ["srv", 443], ["10.0.0.1", 8000], None, ["/run/app.sock", None]]),
                query=rng.choice(["", "", "a=1", "a=%C3%A9&b", "?x", "a#b", "x=http://y/?z", "q=\u00e9", "q=\u00c3\u00a9&\u00ff=%20", "\u0080"]), tail=rng.choice(["x", "x y", "é", "a.b", "a:b", "日本", "a&b=c", "a;b", "(x)", "a@b", "..", "a//b", "", "x/"]),
                kind=rng.choice(["http", "http", "ws", "app"]), names=None)


def run(case, mon):
    obs = []
    kind = case["kind"]
    chain = case["chain"]
    fill = lambda p: __import__("re").sub(r"\{(t[0-9_]+|t)\}", lambda m: "v-" + m.group(1), p)  # noqa
    pre = [fill(p) for p, _, _ in chain]
    depth_names = [n for _, _, n in chain]
    fullname = "".join(n + ":" for n in depth_names if n) + "leaf"
    wsname = fullname[:-4] + "wsleaf"
    params = {}
    for p, _, _ in chain:
        for m in __import__("re").findall(r"\{(t[0-9_]*)\}", p):
            params[m] = "v-" + m

    def observe(where, scope):
        conn = Request(scope) if scope["type"] == "http" else HTTPConnection(scope)
        o = dict(where=where, url=str(conn.url), base=str(conn.base_url), urlpath=conn.url.path, urlquery=conn.url.query, root=scope.get("root_path", ""), path=scope["path"], mapping=(set(conn) == set(scope), len(conn) == len(scope), all(conn[k] is scope[k] for k in scope)), client=conn.client, q=str(conn.query_params), pp=dict(conn.path_params), state={"k": conn.state.k, **({"zz": 1} if hasattr(conn.state, "zz") else {})})
        for nm, kw in (("top", {}), ("topws", {}), (fullname, dict(params, rest="zz")), (wsname, dict(params, n=5))):
            o["for:" + nm] = str(conn.url_for(nm, **kw))
        obs.append(o)

    class Spy:
        def __init__(self, app, name):
            self.app, self.name = app, name

        async def __call__(self, scope, receive, send):
            if scope["type"] != "lifespan":
                observe(self.name + "-before", scope)
                await self.app(scope, receive, send)
                observe(self.name + "-after", scope)

    async def leaf(request):
        observe("leaf", request.scope)
        return PlainTextResponse("ok")

    async def wsleaf(ws):
        observe("leaf", ws.scope)
        await ws.accept()
        await ws.close()

    async def rawapp(scope, receive, send):
        observe("app", scope)
        await PlainTextResponse("ok")(scope, receive, send)

    routes = [Mount("/raw", app=rawapp, name="raw"), WebSocketRoute("/ws/{n:int}", wsleaf, name="wsleaf"), Route("/{rest:path}", leaf, name="leaf")]
    for i, (path, how, name) in reversed(list(enumerate(chain))):
        mw = [Middleware(Spy, name=f"mount{i}")]
        if how == "routes":
            routes = [Mount(path, routes=routes, name=name, middleware=mw)]
        elif how == "router":
            routes = [Mount(path, app=Router(routes=routes), name=name, middleware=mw)]
        else:
            routes = [Mount(path, app=Starlette(routes=routes, middleware=[Middleware(Spy, name=f"inner{i}")]), name=name, middleware=mw)]
    routes = [Route("/top/route/xyz", leaf, name="top"), WebSocketRoute("/top/ws", wsleaf, name="topws")] + routes
    app = Starlette(routes=routes, middleware=[Middleware(Spy, name="outer")])
    prefix = "".join(pre)
    inner = {"http": "/" + case["tail"], "ws": "/ws/7", "app": "/raw/" + case["tail"]}[kind]
    path = case["root"] + prefix + inner
    headers = [("x-a", "1"), ("host", case["host"])] if case["host"] is not None else [("x-a", "1")]
    scheme = case["scheme"]
    kw = dict(headers=headers, query=case["query"], root_path=case["root"], server=tuple(case["server"]) if case["server"] else None)
    if kind == "ws":
        scheme = {"http": "ws", "https": "wss"}[scheme]
        scope = ws_scope(path, scheme=scheme, **kw)
    else:
        scope = http_scope("GET", path, scheme=scheme, **kw)
    scope["state"] = {"k": "v"}
    client = scope["client"]
    t = drive_any(app, scope, "asyncio")
    if t.exc:
        raise t.exc
    if case["host"] is not None:
        net = case["host"]
    elif case["server"] is None or case["server"][1] is None:
        net = None
        mon.n("missing hosts")
    else:
        h, p = case["server"]
        net = h if p == PORTS[scheme] else f"{h}:{p}"
        mon.n("default ports", int(p == PORTS[scheme]))
    origin = "" if net is None else f"{scheme}://{net}"
    q = "?" + case["query"] if case["query"] else ""
    if case.get("kf"):
        o = obs[0]
        if unquote(o["urlpath"]) != path or o["urlquery"] != case["query"]:
            mon.fail("url-path-not-requoted", f"the URL of a request for the path {path!r} is {o['url']!r}, whose path is {o['urlpath']!r} and query {o['urlquery']!r}")
        return
    base = origin + case["root"] + ("" if case["root"].endswith("/") else "/")
    sec = scheme in ("https", "wss")
    hsch, wsch = ("https", "wss") if sec else ("http", "ws")
    want = [x for x in ("outer-before",)]
    for i, (_, how, _) in enumerate(chain):
        want.append(f"mount{i}-before")
        if how == "starlette":
            want.append(f"inner{i}-before")
    want.append("leaf" if kind != "app" else "app")
    back = [x.replace("before", "after") for x in reversed(want) if x.endswith("before")]
    if kind == "http" and case["tail"].startswith(".."):
        pass
    mon.eq([o["where"] for o in obs], want + back, "observers", f"layers that ran for {path!r}")
    for o in obs:
        mon.n("observers")
        if kind == "ws":
            mon.n("websocket observers")
        w = o["where"]
        mon.eq(o["path"], path, "path", f"{w}: scope path")
        if not q.isascii():
            mon.n("queries outside ASCII")
            shown, mark, sent = o["url"].rpartition("?")
            o["url"] = shown + mark + query_text(sent, case["query"])
            o["urlquery"] = query_text(o["urlquery"], case["query"])
        mon.eq(o["url"], origin + path + q, "url", f"{w}: request.url")
        mon.eq(o["urlquery"] if "#" not in q else None, case["query"] if "#" not in q else None, "url-query", f"{w}: request.url.query")
        mon.n("base urls")
        mon.eq(o["base"], base, "base-url", f"{w}: base_url")
        mon.n("url_for results")
        tail = lambda s, p: p if net is None and False else f"{s}://{net}{case['root']}{p}"  # noqa
        if net is not None:
            mon.eq(o["for:top"], tail(hsch, "/top/route/xyz"), "url-for", f"{w}: url_for('top')")
            mon.eq(o["for:topws"], tail(wsch, "/top/ws"), "url-for", f"{w}: url_for('topws')")
            mon.eq(o["for:" + fullname], tail(hsch, prefix + "/zz"), "url-for", f"{w}: url_for({fullname!r})")
            mon.eq(o["for:" + wsname], tail(wsch, prefix + "/ws/5"), "url-for", f"{w}: url_for({wsname!r})")
        mon.eq(o["mapping"], (True, True, True), "mapping", f"{w}: the connection as a mapping of its scope")
        mon.eq(tuple(o["client"]), tuple(client), "client", f"{w}: client")
        mon.eq(o["state"], {"k": "v"}, "state", f"{w}: state")
        if w in ("leaf", "app") or w.endswith("before"):
            if w == "outer-before":
                depth = 0
            elif w in ("leaf", "app"):
                depth = len(pre)
            else:
                depth = int("".join(c for c in w.split("-")[0] if c.isdigit())) + 1
            root = case["root"] + "".join(pre[:depth]) + ("/raw" if w == "app" else "")
            mon.n("mounted root paths")
            mon.eq(o["root"], root, "root-path", f"{w}: root_path")
    mon.nontrivial(len(chain), [c[1] for c in chain], case["root"], kind, scheme, net)
