from __future__ import annotations

import json
import random

from starlette.responses import Response
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

from vp import gens
from vp import routemodel as rm
from vp.asgi import drive, http_protocol, http_scope, no_leaks, ws_scope

ID = "C13"
PROP = dict(
    title="Exactly the documented route handles each request, with the right params",
    statement=(
        "For every routing tree (routes, websocket routes, mounts, hosts, nested to any depth) and every request, exactly one endpoint runs: the first in order whose whole path, host, protocol and method match, entering the first "
        "mount or host that matches; its path parameters are exactly the converted substrings, merged along the way, and literals match only themselves. If only the method differs the answer is 405 with an Allow header "
        "naming the methods of the route; otherwise it is 404, or a close for a websocket. Routes for GET also accept HEAD, a function endpoint without methods accepts only GET, and any convertor - built in or registered - matches exactly its own values."
    ),
    over=["inputs", "programs"],
    quant="every routing tree, path (percent-decoded text, newlines included), method, host and protocol",
    why="tests route a few fixed tables; precedence, overlap, nesting and convertor ambiguity need arbitrary tables and paths",
    files=["starlette/routing.py", "starlette/convertors.py", "starlette/_utils.py"],
    mechanism=[("Router.app selection", "starlette/routing.py:Router.app"), ("compile_path", "starlette/routing.py:compile_path"), ("matches()", "starlette/routing.py:Route/WebSocketRoute/Mount/Host"), ("convertors", "starlette/convertors.py"), ("get_route_path", "starlette/_utils.py")],
)
TECH = "runtime monitoring: endpoint-execution log compared with an independent matching model over generated routing trees and requests"
RULE = "each case is a routing tree and 12 requests aimed at or near its leaves; non-trivial when a leaf, 404 or 405 was decided by the model and compared"
LEVEL_NOTE = "held on the generated trees and requests"
BUDGET = {"quick": (60000, 16), "thorough": (900000, 240)}
REQUIRED = ("leaves reached", "not found", "method not allowed", "websocket leaves", "websocket closes", "mounted apps reached", "standalone routes")


def worker_setup(mon):
    rm.register_hex2()


def fixed(tier):
    R = lambda i, t, m=None, k="func": ["route", i, t, m, k, "n"]  # noqa
    out = []

    def add(tree, reqs, top="starlette"):
        out.append(dict(tree=tree, reqs=[dict(type="http", path=p, method=m, host="testserver") if isinstance(p, str) else p for p, m in reqs], top=top, backend="asyncio", kind="tree"))

    add([R(1, "/a"), R(2, "/{x}"), R(3, "/{x:path}")], [(p, m) for p in ("/a", "/b", "/a/", "/", "/a/b", "/a\n", "/\n", "/A") for m in ("GET", "HEAD", "POST")])
    add([R(1, "/", ["POST"]), R(2, "/", ["PUT"]), R(3, "/{p:path}", ["GET"])], [("/", m) for m in ("GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS")])
    add([R(1, "/i/{x:int}"), R(2, "/i/{x:float}"), R(3, "/i/{x:uuid}"), R(4, "/i/{x:str}")],
        [("/i/" + v, "GET") for v in ("0", "1.5", "-1", "1.", ".5", "1e5", "٣", "0x1", "1_0", "00000000-0000-0000-0000-000000000000", "0" * 32, "g" * 32, "", "1/2", "9" * 4300, "1 ", " 1", "+1", "inf", "nan", "1.5.2", "1\n")])
    add([["mount", "/a", "routes", [R(1, "/"), R(2, "/b"), ["mount", "/{t}", "router", [R(3, "/{u:path}")], None]], "m"], R(4, "/a"), R(5, "/ab/{z:path}")],
        [(p, "GET") for p in ("/a", "/a/", "/a/b", "/a/b/", "/a/x/", "/a/x/y/z", "/ab/c", "/a//b", "/a/a/a", "/")])
    add([["mount", "/a/", "starlette", [R(1, "/x")], None], ["mount", "", "router", [R(2, "/x"), R(3, "/a/x")], None]], [(p, "GET") for p in ("/a/x", "/x", "/a/a/x", "/a//x", "//x")])
    add([R(1, "/a.b"), R(2, "/(c)"), R(3, "/x+y"), R(4, "/$"), R(5, "/[z]"), R(6, "/a|b"), R(7, "/\\d")], [(p, "GET") for p in ("/a.b", "/axb", "/(c)", "/c", "/xxy", "/x+y", "/$", "/", "/z", "/[z]", "/a", "/a|b", "/5", "/\\d")])
    for kind in ("func", "sync", "partial", "method", "asgi", "class"):
        add([R(1, "/", None, kind), R(2, "/p", ["POST"], kind)], [(p, m) for p in ("/", "/p") for m in ("GET", "HEAD", "POST", "PUT", "OPTIONS")])
        add([R(1, "/", None, kind), R(2, "/p", ["POST"], kind)], [(p, m) for p in ("/", "/p") for m in ("GET", "HEAD", "POST", "PUT", "OPTIONS")], "router")
    add([["host", "h.test", "router", [R(1, "/")], None], ["host", "{s}.h.test", "router", [R(2, "/")], None], R(3, "/")],
        [(dict(type="http", path="/", method="GET", host=h), None) for h in ("h.test", "a.h.test", "h.test:80", "a.h.test:8000", "a.b.h.test", "hxtest", "xh.test", "h.test.evil", "", "h.testx")])
    add([["ws", 1, "/w/{x:int}", "func", "n"], ["route", 2, "/w/{x}", None, "func", "n"], ["app", 3, "/m", "q"]],
        [(dict(type=t, path=p, method="GET", host="h"), None) for t in ("http", "websocket") for p in ("/w/1", "/w/x", "/m/", "/m", "/m/z", "/")])
    # known finding: more digits than int() converts
    out.append(dict(kind="kf-int", n=4301))
    return out


def gen(rng, tier):
    if rng.random() < 0.06:
        nm = rm.NameGen()
        return dict(kind="single", node=rng.choice([["route", 1, rm.gen_template(rng, nm), None, "func", "n"], ["ws", 1, rm.gen_template(rng, nm), "func", "n"], ["app", 1, rm.gen_template(rng, nm, 1, 2), "n"]]), seed=rng.randrange(10**6), backend="asyncio")
    tree = rm.gen_tree(rng, rng.choice([0, 1, 1, 2, 3]))
    reqs = [rm.gen_request(rng, tree) for _ in range(12)]
    for r in list(reqs[:3]):
        reqs.append(dict(r, method=rng.choice(rm.METHODS)))
    return dict(kind="tree", tree=tree, reqs=reqs, top=rng.choice(["starlette", "router"]), backend="asyncio")


def norm(v):
    return {k: (type(x).__name__, str(x)) for k, x in v.items()}


def one(mon, app, log, req, want, backend, what):
    log.clear()
    if req["type"] == "http":
        scope = http_scope(req["method"], req["path"], headers=[("host", req["host"])])
    else:
        scope = ws_scope(req["path"], headers=[("host", req["host"])])
    # a server or an outer application may hand over path parameters of its own: they are
    # merged with the matched ones and the caller's mapping stays as it was
    outer = {"outer": "kept"} if what == "tree" else None
    if outer is not None:
        scope["path_params"] = outer
    t = drive_any(app, scope, backend)
    mon.ok(outer in (None, {"outer": "kept"}), "caller-params-modified", f"{what}: the caller's path_params became {outer} for {req}")
    if t.exc:
        mon.fail("routing-exception", f"{what}: request {req} raised {t.exc!r}")
        return
    if req["type"] == "http":
        http_protocol(t, mon, method=req["method"])
    leaf = [x[0] for x in log]
    if want.kind in ("leaf", "app"):
        mon.eq(leaf, [want.leaf], "wrong-endpoint", f"{what}: endpoints run for {req}")
        if leaf == [want.leaf]:
            mon.eq(norm(log[0][1]), norm({**(outer or {}), **want.params}), "path-params", f"{what}: path parameters for {req}")
            if want.kind == "app":
                mon.n("mounted apps reached")
                mon.eq(log[0][2], want.root, "root-path", f"{what}: root_path of the mounted application for {req}")
            elif req["type"] == "websocket":
                mon.n("websocket leaves")
            else:
                mon.n("leaves reached")
                mon.eq(t.status, 203, "status", f"status for {req}")
        return
    mon.eq(leaf, [], "wrong-endpoint", f"{what}: endpoints run for {req} (model: {want})")
    if req["type"] == "websocket":
        mon.n("websocket closes")
        mon.eq([m["type"] for m in t.sent], ["websocket.close"], "ws-not-found", f"messages sent for {req}")
    elif want.kind == "405":
        mon.n("method not allowed")
        mon.eq(t.status, 405, "405", f"{what}: status for {req}")
        if t.status == 405:
            allow = {x.strip() for x in (t.header("allow") or "").split(",")}
            mon.ok(want.allow <= allow <= want.allow_max, "allow", f"{what}: Allow is {allow} for {req}, the route accepts {want.allow}")
    else:
        mon.n("not found")
        mon.eq(t.status, 404, "404", f"{what}: status for {req}")


def drive_any(app, scope, backend, frames=()):
    if scope["type"] == "http":
        return drive(app, scope, backend=backend)
    from vp.asgi import Trace, run_async

    t = Trace()

    async def main():
        sent_connect = [0]

        async def receive():
            sent_connect[0] += 1
            if sent_connect[0] == 1:
                return {"type": "websocket.connect"}
            if sent_connect[0] - 2 < len(frames):
                return {"type": "websocket.receive", "text": frames[sent_connect[0] - 2]}
            return {"type": "websocket.disconnect", "code": 1000}

        async def send(m):
            t.events.append(("send", m))

        try:
            await app(scope, receive, send)
        except Exception as exc:
            t.exc = exc

    run_async(backend, 0, main)
    return t


def run(case, mon):
    log = []

    def record(leaf, scope):
        log.append((leaf, dict(scope.get("path_params", {})), scope.get("root_path", "")))

    if case["kind"] == "kf-int":
        app = rm.build([["route", 1, "/{x:int}", None, "func", "n"]], record)
        t = drive(app, http_scope(path="/" + "9" * case["n"]))
        if t.exc is not None and not (isinstance(t.exc, ValueError) and "integer string" in str(t.exc)):
            raise t.exc
        if t.exc is not None:
            mon.fail("int-convertor-oversized", f"a {case['n']}-digit path segment makes an {{x:int}} route raise {t.exc!r}")
        return
    if case["kind"] == "single":
        rng = random.Random(case["seed"])
        inner = rm.build([case["node"]], record, top="router")
        route = inner.routes[0]
        for _ in range(10):
            req = rm.gen_request(rng, [case["node"]])
            mon.n("standalone routes")
            one(mon, route, log, req, rm.resolve([case["node"]], req), case["backend"], f"standalone {case['node']}")
        mon.nontrivial("single", case["node"][2])
        return
    app = rm.build(case["tree"], record, top=case["top"])
    shapes = []
    for req in case["reqs"]:
        want = rm.resolve(case["tree"], req)
        one(mon, app, log, req, want, case["backend"], "tree")
        shapes.append((want.kind, want.leaf))
    mon.nontrivial(shapes)
