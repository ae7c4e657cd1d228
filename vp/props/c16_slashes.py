from __future__ import annotations

from urllib.parse import unquote, urlsplit

from vp import gens
from vp import routemodel as rm
from vp.asgi import http_protocol, http_scope, query_text, ws_scope
from vp.props.c13_routing import drive_any

ID = "C16"
PROP = dict(
    title="Slash redirects only lead from a missing path to an existing one",
    statement=(
        "When no route of a router matches an HTTP path, but its counterpart with a trailing slash added (or all trailing slashes removed) does, the response is a 307 redirect to that same URL - scheme, host, prefix, "
        "complete path and query kept - and following it with the same method reaches the route, never another redirect. A request that any route matches, wrong methods included, is never redirected; neither is the root path, a websocket, "
        "a path whose counterpart matches nothing, nor anything when redirect_slashes is off: those get the usual answer."
    ),
    over=["inputs", "programs"],
    quant="every routing tree with nested routers, path, method, query, root path, host, redirect_slashes setting",
    why="tests redirect a few top-level paths; nesting, prefixes, queries and repeated slashes interact",
    files=["starlette/routing.py", "starlette/datastructures.py", "starlette/responses.py"],
    mechanism=[("Router.app redirect", "starlette/routing.py:Router.app"), ("URL from scope", "starlette/datastructures.py:URL"), ("RedirectResponse", "starlette/responses.py:RedirectResponse")],
)
TECH = "runtime monitoring: responses compared with an independent routing model, and every redirect followed once"
RULE = "each case is a routing tree and 14 requests at or near its leaves with slashes added or removed; non-trivial when a redirect or its absence was decided"
LEVEL_NOTE = "held on the generated trees and requests"
BUDGET = {"quick": (60000, 13), "thorough": (900000, 200)}
REQUIRED = ("redirects followed", "no redirect", "disabled", "websockets not redirected", "405 kept", "queries kept", "prefixed redirects")

LITS = ["a", "b", "ab", "a.b", "x+y", "a b", "é", "1", "a-b", "~", "(z)"]


def worker_setup(mon):
    rm.register_hex2()


def fixed(tier):
    R = lambda i, t, m=None: ["route", i, t, m, "func", "n"]  # noqa
    trees = [
        [R(1, "/a"), R(2, "/b/"), R(3, "/c/{x}"), R(4, "/d/{x}/"), R(5, "/post", ["POST"]), R(6, "/")],
        [["mount", "/m", "router", [R(1, "/"), R(2, "/x"), R(3, "/y/")], None], ["mount", "/n", "starlette", [R(4, "/x/")], None], ["app", 5, "/raw", None]],
        [["mount", "/m", "routes", [["mount", "/k", "router", [R(1, "/z/"), R(2, "/{p:int}")], None]], None], R(3, "/{p:path}", ["POST"])],
        [["host", "h.test", "router", [R(1, "/x/"), R(2, "/y")], None]],
        [["ws", 1, "/w/", "func", "n"], R(2, "/v/")],
    ]
    paths = ["/", "/a", "/a/", "/a//", "/b", "/b/", "/b//", "/c/1", "/c/1/", "/c/", "/d/1", "/d/1/", "/post", "/post/", "/zzz", "/zzz/", "/m", "/m/", "/m//", "/m/x", "/m/x/", "/m/y", "/m/y/", "/n/x", "/n/x/", "/n", "/raw", "/raw/", "/m/k/z", "/m/k/z/", "/m/k/5", "/m/k/5/", "/m/k", "//", "/x", "/x/", "/y", "/y/", "/w", "/w/", "/v", "/v/", "///a///"]
    out = []
    for tree in trees:
        for slashes in (True, False):
            for root in ("", "/r"):
                out.append(dict(tree=tree, slashes=slashes, root=root, scheme="https", query="a=1&b=%20x",
                                reqs=[dict(type=t, path=p, host=h, method=m) for p in paths for t, h, m in (("http", "h.test", "GET"), ("http", "other:81", "POST"), ("websocket", "h.test", "GET"))], top="starlette"))
    out.append(dict(kf=True, path="/a%3Fb"))
    return out


def gen(rng, tier):
    tree = rm.gen_tree(rng, rng.choice([0, 1, 1, 2]), literals=LITS, types=["str", "int", "path", "uuid", "float"])
    reqs = []
    for _ in range(14):
        r = rm.gen_request(rng, tree)
        for c in "?#%\n\\{}":
            r["path"] = r["path"].replace(c, "x")
            r["host"] = r["host"].replace(c, "")
        q = rng.random()
        if q < 0.35:
            r["path"] += "/" * rng.choice([1, 1, 1, 2, 3])
        elif q < 0.7:
            r["path"] = r["path"].rstrip("/") or "/"
        reqs.append(r)
    return dict(tree=tree, slashes=rng.random() < 0.85, root=rng.choice(["", "", "", "/r", "/r/s", "/é"]), scheme=rng.choice(["http", "https"]), query=rng.choice(["", "", "a=1", "x=%C3%A9&y=/", "q?q", "q=\u00e9", "q=\u00c3\u00a9&\u00ff=%20", "\u0080"]), reqs=reqs, top=rng.choice(["starlette", "router"]))


def run(case, mon):
    log = []

    def record(leaf, scope):
        log.append(leaf)

    if case.get("kf"):
        app = rm.build([["route", 1, "/{x}/", None, "func", "n"]], record, slashes=True)
        t = drive_any(app, http_scope("GET", "/a?b"), "asyncio")
        loc = t.header("location")
        u = urlsplit(loc)
        if unquote(u.path) != "/a?b/" or u.query:
            mon.fail("redirect-path-not-requoted", f"GET /a%3Fb redirects to {loc!r}, which is the path {u.path!r} with the query {u.query!r}")
        return
    app = rm.build(case["tree"], record, slashes=case["slashes"], top=case["top"])
    root = case["root"]
    shapes = []

    def send(req, path, query):
        log.clear()
        hs = [("host", req["host"])]
        if req["type"] == "websocket":
            return drive_any(app, ws_scope(root + path, headers=hs, root_path=root, query=query), "asyncio")
        return drive_any(app, http_scope(req["method"], root + path, headers=hs, root_path=root, query=query, scheme=case["scheme"]), "asyncio")

    for req in case["reqs"]:
        want = rm.resolve(case["tree"], req, root=root, slashes=case["slashes"])
        t = send(req, req["path"], case["query"])
        what = f"{req} (root path {root!r})"
        if t.exc:
            raise t.exc
        shapes.append(want.kind)
        if want.kind in ("leaf", "app"):
            mon.n("no redirect")
            mon.eq(log[:], [want.leaf], "endpoint", f"endpoints run for {what}")
            continue
        mon.eq(log[:], [], "endpoint", f"endpoints run for {what}")
        if req["type"] == "websocket":
            mon.n("websockets not redirected")
            mon.eq([m["type"] for m in t.sent], ["websocket.close"], "websocket", f"messages sent for {what}")
            continue
        http_protocol(t, mon, method=req["method"])
        if want.kind == "405":
            mon.n("405 kept")
            mon.eq(t.status, 405, "405", f"status for {what}")
            continue
        if want.kind == "404":
            mon.n("no redirect")
            if not case["slashes"]:
                mon.n("disabled")
            mon.eq(t.status, 404, "404", f"status for {what} (location {t.header('location')!r})")
            continue
        mon.n("redirects followed")
        if not mon.eq(t.status, 307, "not-redirected", f"status for {what}"):
            continue
        loc = t.header("location")
        u = urlsplit(loc)
        mon.ok(loc.isascii() and " " not in loc, "location-quoting", f"{loc!r}")
        mon.eq((u.scheme, u.netloc, unquote(u.path), query_text(u.query, case["query"]), u.fragment), (case["scheme"], req["host"], want.location, case["query"], ""), "location", f"redirect of {what}")
        if case["query"]:
            mon.n("queries kept")
        if root:
            mon.n("prefixed redirects")
        newpath = unquote(u.path)[len(root):]
        then = rm.resolve(case["tree"], dict(req, path=newpath), root=root, slashes=case["slashes"])
        t2 = send(req, newpath, u.query)
        mon.ok(not (t2.status == 307 and t2.header("location")) or then.kind in ("leaf", "app"), "redirect-chain", f"{what}: the redirect to {loc!r} is redirected again to {t2.header('location')!r}")
        mon.eq(log[:], [then.leaf] if then.leaf else [], "redirect-target", f"endpoints reached by following the redirect of {what} to {loc!r}")
    mon.nontrivial(shapes)
