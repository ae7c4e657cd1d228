from __future__ import annotations

import random
from urllib.parse import parse_qsl, urlencode

import anyio

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, hdr, http_scope, run_async, split_body, chunking, ws_scope

ID = "C46"
PROP = dict(
    title="Request and WebSocket objects show exactly the connection they were made for",
    statement=(
        "For every HTTP or WebSocket scope, each Request, WebSocket or HTTPConnection made for it is a mapping of that scope and reports exactly its method, headers, query, path parameters, cookies, client address (None when unknown), application, session, user and credentials, in any order of access and however many such objects exist; what the scope lacks is a clear error or an empty value, never another's. "
        "Everything set on state is seen by every object made for the same connection - in middleware, mounted applications, endpoint - over what lifespan stored, and by no other connection; what is stored on the state of an application is found through every connection it handles, and through no other application. Objects are equal only to themselves; server push promises are sent only where the server supports them, with the given path and the request's own negotiation headers."
    ),
    over=["inputs", "configurations", "histories"],
    quant="every scope content with optional keys present or missing, object kind and number, order of accesses and state operations",
    why="tests look at one attribute of one object of one scope",
    files=["starlette/requests.py", "starlette/websockets.py", "starlette/datastructures.py"],
    mechanism=[("accessors", "starlette/requests.py:HTTPConnection"), ("state", "starlette/datastructures.py:State"), ("push", "starlette/requests.py:Request.send_push_promise")],
)
TECH = "runtime monitoring: every accessor compared with the scope the harness built, on several objects per scope and in random order, with a reference dict for state operations"
RULE = "each case is a scope, 1-4 objects and up to 30 accesses and state operations, directly or through an application; non-trivial when accesses were compared"
LEVEL_NOTE = "held on the generated scopes and access sequences"
BUDGET = {"quick": (60000, 7), "thorough": (600000, 80)}
REQUIRED = ("accesses compared", "state operations", "missing keys", "mapping checks", "identity checks", "push promises", "push unsupported", "websockets", "through applications", "client addresses", "wrong kinds", "shared state", "lifespan state", "rewritten scopes", "application state")

PUSH = ["accept", "accept-encoding", "accept-language", "cache-control", "user-agent"]
NAMES = ["x-a", "X-B", "accept", "Accept", "user-agent", "cache-control", "cookie", "accept-encoding", "accept-language", "authorization", "x-é", "referer", "if-none-match"]
ACCESS = ["headers", "query_params", "path_params", "client", "app", "session", "user", "auth", "method", "mapping", "identity", "state-set", "state-get", "state-get", "state-del", "state-has", "cookies", "url", "receive", "state-scope"]
CLIENTS = ["missing", None, ["127.0.0.1", 5000], ["::1", 0], ["", 0], ["unix:/x", 1], ["10.0.0.1", 65535]]
KEYS = ["a", "b", "user", "_private", "state", "update", "get", "__x", "items", "class", "é"]


def fixed(tier):
    out = []
    i = 0
    for kind in ("http", "websocket"):
        for c in range(len(CLIENTS)):
            for missing in ([], ["session", "user", "auth", "app", "path_params", "state"]):
                i += 1
                out.append(dict(kind=kind, headers=[["accept", "a"], ["x-a", "1"], ["Accept", "b"], ["cookie", "a=b"]], query=[["a", "é &="], ["a", ""], ["b", "2"]], client=c, missing=missing, objects=["native", "conn", "native"], ops=[[a, j % 3, KEYS[j % len(KEYS)], j] for j, a in enumerate(ACCESS * 2)], push=i % 2, via="direct", seed=i, backend=["asyncio", "trio"][i % 2]))
    for via in ("app", "mounted", "middleware"):
        for kind in ("http", "websocket"):
            for ls in (0, 1):
                i += 1
                out.append(dict(kind=kind, headers=[["accept", "a"], ["user-agent", "ua"], ["accept-language", "x"], ["authorization", "secret"]], query=[["a", "1"]], client=2, missing=[] if ls else ["state"], objects=["native", "conn"], ops=[[a, j % 2, KEYS[j % len(KEYS)], j] for j, a in enumerate(ACCESS + ACCESS[::-1])], push=i % 2, via=via, seed=i, backend="asyncio"))
    return out


def gen(rng, tier):
    return dict(
        kind=rng.choice(["http", "http", "websocket"]),
        headers=[[rng.choice(NAMES) if rng.random() < 0.7 else gens.header_name(rng).replace("host", "ghost"), rng.choice(["", "1", "a=b; c=d", gens.header_value(rng)])] for _ in range(rng.randrange(0, 9))],
        query=[[gens.text(rng, 0, 5), gens.text(rng, 0, 6)] for _ in range(rng.randrange(0, 5))],
        client=rng.randrange(len(CLIENTS)),
        missing=[k for k in ["session", "user", "auth", "app", "path_params", "state"] if rng.random() < 0.3],
        objects=[rng.choice(["native", "native", "conn"]) for _ in range(rng.randrange(1, 5))],
        ops=[[rng.choice(ACCESS), rng.randrange(4), rng.choice(KEYS), rng.randrange(100)] for _ in range(rng.randrange(1, 30))],
        push=rng.choice([0, 1]),
        via=rng.choice(["direct", "direct", "app", "mounted", "middleware"]),
        seed=rng.randrange(10**6),
        backend=gens.backend(rng),
    )


class Same:
    """Stands for a session, user, credentials or application object: compared by identity"""

    def url_path_for(self, *a, **k):
        raise AssertionError


def build(case, tag=""):
    hs = [[k.lower(), v + (tag if k == "x-a" else "")] for k, v in case["headers"] if k.lower() != "host"]
    q = urlencode([(k, v.encode("utf-8", "replace").decode()) for k, v in case["query"]], errors="replace").encode()
    mk = http_scope if case["kind"] == "http" else ws_scope
    scope = mk("GET", "/p", (), b"") if case["kind"] == "http" else mk("/p", (), b"")
    scope["headers"] = [(k.encode("latin-1", "replace"), v.encode("latin-1", "replace")) for k, v in hs]
    scope["query_string"] = q
    if CLIENTS[case["client"]] == "missing":
        scope.pop("client", None)
    else:
        c = CLIENTS[case["client"]]
        scope["client"] = None if c is None else tuple(c) if case["seed"] % 2 else list(c)
    for k in ("session", "user", "auth", "app"):
        if k not in case["missing"]:
            scope[k] = Same()
    if "session" in scope:
        scope["session"] = {"s": tag}
    if "path_params" not in case["missing"]:
        scope["path_params"] = {"id": 7, "p": tag}
    if "state" in case["missing"]:
        scope.pop("state", None)
    else:
        scope["state"] = {"from_lifespan": "L"}
    if case["push"]:
        scope["extensions"] = {"http.response.push": {}}
    elif case["seed"] % 2:
        scope["extensions"] = {"other": {}}
    return scope


async def noop_receive():
    return {"type": "http.request", "body": b"", "more_body": False}


async def noop_send(m):
    pass


def objects_for(case, scope, receive=noop_receive, send=noop_send):
    out = []
    for o in case["objects"]:
        if o == "conn":
            out.append(HTTPConnection(scope))
        elif case["kind"] == "http":
            out.append(Request(scope, receive, send))
        else:
            out.append(WebSocket(scope, receive, send))
    return out


def exercise(case, mon, scope, objs, model, receive=noop_receive, first=0):
    """model: reference contents of state"""
    raw = list(scope["headers"])
    want_q = parse_qsl(scope["query_string"].decode("latin-1"), keep_blank_values=True)
    for j, (op, i, key, val) in enumerate(case["ops"]):
        o = objs[i % len(objs)]
        nm = type(o).__name__
        mon.n("accesses compared")
        if op == "headers":
            mon.eq([(k, v) for k, v in o.headers.items()], [(k.decode("latin-1"), v.decode("latin-1")) for k, v in raw], "headers", f"{nm}.headers")
        elif op == "query_params":
            mon.eq(o.query_params.multi_items(), want_q, "query", f"{nm}.query_params of {scope['query_string']!r}")
        elif op == "path_params":
            if "path_params" not in scope:
                mon.n("missing keys")
            mon.eq(dict(o.path_params), dict(scope.get("path_params", {})), "path-params", f"{nm}.path_params")
        elif op == "client":
            c = scope.get("client")
            mon.n("client addresses")
            got = o.client
            if c is None:
                mon.ok(got is None, "client", f"{nm}.client is {got!r} for {c!r}")
            else:
                mon.ok(got is not None and tuple(got) == tuple(c) and got.host == c[0] and got.port == c[1], "client", f"{nm}.client is {got!r} for {c!r}")
        elif op in ("session", "user", "auth", "app"):
            try:
                got = getattr(o, op)
            except (AssertionError, KeyError) as exc:
                mon.n("missing keys")
                mon.ok(op not in scope, "lost", f"{nm}.{op} raised {exc!r} but the scope has it")
                mon.ok(op == "app" or isinstance(exc, AssertionError) and "must be installed" in str(exc), "unclear", f"{nm}.{op}: {exc!r}")
            else:
                mon.ok(op in scope and got is scope[op], "wrong-object", f"{nm}.{op} is not the scope's")
        elif op == "method" and case["kind"] == "http" and isinstance(o, Request):
            mon.eq(o.method, scope["method"], "method", "method")
        elif op == "receive" and isinstance(o, Request):
            mon.ok(o.receive is receive or receive is not noop_receive, "receive", "Request.receive is not the given channel")
        elif op == "mapping":
            mon.n("mapping checks")
            mon.ok(list(o) == list(scope) and len(o) == len(scope) and all(o[k] is scope[k] for k in scope) and list(o.keys()) == list(scope) and "nope" not in o and o.get("nope", 3) == 3 and o.get("type") == case["kind"], "mapping", f"{nm} is not a mapping of its scope: {list(o)} / {list(scope)}")
            scope[f"extra{j}"] = j
            mon.ok(o[f"extra{j}"] == j and f"extra{j}" in o, "mapping-live", "a key added to the scope is not seen")
            try:
                o["nope"]
                mon.fail("mapping-missing", "a missing key was returned")
            except KeyError:
                pass
        elif op == "identity":
            mon.n("identity checks")
            others = [x for x in objs if x is not o]
            mon.ok(o == o and hash(o) == hash(o) and not (o != o) and all(o != x and not (o == x) for x in others) and o != dict(scope) and {o: 1}[o] == 1, "identity", f"{nm} compares equal to something else")
        elif op == "cookies":
            cs = [v.decode("latin-1") for k, v in raw if k == b"cookie"]
            want = {}
            if cs and cs[0] == "a=b":
                want = {"a": "b"}
            elif cs and cs[0] == "a=b; c=d":
                want = {"a": "b", "c": "d"}
            if not cs or cs[0] in ("a=b", "a=b; c=d"):
                mon.eq(dict(o.cookies), want, "cookies", f"{nm}.cookies of {cs}")
        elif op == "url":
            mon.ok(o.url.path == scope["path"], "url", f"{nm}.url is {o.url}")
            mon.eq(o.url.query, scope["query_string"].decode(), "url", f"{nm}.url's query")
        elif op.startswith("state"):
            mon.n("state operations")
            if len(objs) > 1:
                mon.n("shared state")
            s = o.state
            if op == "state-set":
                v = [val]
                if val % 2:
                    setattr(s, key, v)
                else:
                    o.state.__setattr__(key, v)
                model[key] = v
            elif op == "state-del":
                try:
                    delattr(s, key)
                    mon.ok(key in model, "state", f"deleting state.{key}, which was not set, succeeded")
                    model.pop(key, None)
                except (AttributeError, KeyError):
                    mon.ok(key not in model, "state", f"state.{key} could not be deleted")
            elif op == "state-has":
                # a name the object's class defines is looked up on the class
                mon.eq(hasattr(s, key), key in model, "state", f"hasattr(state, {key!r})")
            elif op == "state-scope":
                mon.ok(dict(scope["state"]) == model, "state-scope", f"scope['state'] is {scope['state']}, what was set is {model}")
            else:
                try:
                    got = getattr(s, key)
                    mon.ok(key in model and got is model[key], "state", f"state.{key} is {got!r}, set was {model.get(key)!r}")
                except AttributeError as exc:
                    mon.ok(key not in model, "state", f"state.{key} was lost")
                    mon.ok(key in str(exc), "state-error", f"{exc!r} does not name {key}")
        mon.nontrivial(op, nm, key, case["via"], len(objs))


def run(case, mon):
    kind = case["kind"]
    if kind == "websocket":
        mon.n("websockets")
    if case["via"] == "direct":
        scope = build(case)
        model = dict(scope.get("state", {}))
        objs = objects_for(case, scope)
        other = build(case, "other")
        o2 = objects_for(case, other)
        m2 = dict(other.get("state", {}))
        exercise(case, mon, scope, objs, model)
        mon.ok(all(getattr(x.state, "from_lifespan", None) == m2.get("from_lifespan") and not any(hasattr(x.state, k) for k in KEYS) for x in o2), "state-leak", f"state of another connection: {other.get('state')}")
        # a new object made later sees what was set before
        late = objects_for(case, scope)
        mon.ok(all(getattr(late[0].state, k) is v for k, v in model.items()), "state-late", "an object made later does not see the state")
        exercise(case, mon, scope, late, model)
        # what a middleware in between replaced in a copy of the scope is what objects made for the copy report
        mon.n("rewritten scopes")
        copy = dict(scope, headers=[(b"x-new", b"1"), (b"cookie", b"a=b")] + list(scope["headers"])[1:], query_string=b"new=1&" + scope["query_string"], path="/new", client=("rewritten", 1), session={"new": 1}, user=Same(), auth=Same(), path_params={"new": 1})
        copy["state"] = model2_dict = dict(model)
        exercise(case, mon, copy, objects_for(case, copy), dict(model))
        mon.ok(copy["state"] is model2_dict, "state-scope", "the state of the copy was replaced")
        late = objects_for(case, scope)
        exercise(dict(case, ops=[o for o in case["ops"] if not o[0].startswith("state")]), mon, scope, late, model)
        # the wrong kind of connection is refused
        mon.n("wrong kinds")
        for cls, s in ((Request, ws_scope("/")), (WebSocket, http_scope("GET", "/")), (HTTPConnection, {"type": "lifespan"})):
            try:
                cls(s, noop_receive, noop_send) if cls is not HTTPConnection else cls(s)
                mon.fail("kind", f"{cls.__name__} accepted a {s['type']} scope")
            except AssertionError:
                pass
        if kind == "http":
            sent = []

            async def send(m):
                sent.append(m)

            async def push():
                r = Request(scope, noop_receive, send)
                await r.send_push_promise("/pushed?x=é")
                if case["push"]:
                    await r.send_push_promise("/second")

            run_async(case["backend"], case["seed"], push)
            if case["push"]:
                mon.n("push promises")
                mon.eq([(m["type"], m["path"]) for m in sent], [("http.response.push", "/pushed?x=é"), ("http.response.push", "/second")], "push", "messages")
                raw = scope["headers"]
                for m in sent:
                    got = sorted((bytes(k), bytes(v)) for k, v in m["headers"])
                    mon.eq(got, sorted((k, v) for k, v in raw if k.decode("latin-1") in PUSH), "push-headers", f"headers of the promise for a request with {raw}")
                    for n in PUSH:
                        mon.eq([v for k, v in m["headers"] if k == n.encode()], [v for k, v in raw if k == n.encode()], "push-headers", "order of values")
            else:
                mon.n("push unsupported")
                mon.eq(sent, [], "push", "promises sent to a server that does not support them")
            # without channels
            r = Request(scope)

            async def bare():
                try:
                    await r.body()
                    mon.fail("no-channel", "a body was read without a receive channel")
                except RuntimeError:
                    pass
                if case["push"]:
                    try:
                        await r.send_push_promise("/x")
                        mon.fail("no-channel", "a promise was sent without a send channel")
                    except RuntimeError:
                        pass

            run_async(case["backend"], case["seed"], bare)
        c = HTTPConnection({k: v for k, v in scope.items() if k not in ("app", "router")})
        try:
            c.url_for("x")
            mon.fail("url-for", "url_for without an application returned")
        except RuntimeError:
            mon.n("missing keys")
        return
    mon.n("through applications")
    models = {}
    seen = []

    def step(scope, receive, send, level):
        tok = scope["token"]
        model = models[tok]
        objs = objects_for(case, scope)
        if "state" in scope:
            mon.n("lifespan state")
        exercise(case, mon, scope, objs, model)
        mine = apps["inner" if case["via"] == "mounted" and level in ("inner", "endpoint", "endpoint2") else "outer"]
        for x in objs:
            mon.n("application state")
            mon.ok(x.app is mine[0] and all(getattr(x.app.state, k, None) == v for k, v in mine[1].items()) and not any(hasattr(x.app.state, k) for other in apps.values() if other is not mine for k in other[1] if k not in mine[1]), "app-state", f"at {level}: the application's state should be {mine[1]}")
        setattr(objs[0].app.state, f"app_{tok}_{level}", tok)
        mine[1][f"app_{tok}_{level}"] = tok
        seen.append((tok, level))
        setattr(objs[0].state, f"lvl_{level}", tok)
        model[f"lvl_{level}"] = tok
        for x in objs:
            mon.ok(all(getattr(x.state, k) is v or getattr(x.state, k) == v for k, v in model.items()), "state-levels", f"at {level}: {dict(scope['state'])} should be {model}")

    class Pure:
        def __init__(self, app, level):
            self.app, self.level = app, level

        async def __call__(self, scope, receive, send):
            if scope["type"] == kind:
                step(scope, receive, send, self.level)
            await self.app(scope, receive, send)

    class Base(BaseHTTPMiddleware):
        async def dispatch(self, request, call_next):
            step(request.scope, request.receive, None, "base")
            request.state.by_base = request.scope["token"]
            models[request.scope["token"]]["by_base"] = request.scope["token"]
            return await call_next(request)

    async def endpoint(request):
        step(request.scope, request.receive, None, "endpoint")
        mon.ok(request.path_params == {**({} if "path_params" in case["missing"] else {"p": request.scope["token"]}), "id": int(request.scope["token"][1:]), **({"m": "mm"} if case["via"] == "mounted" else {})}, "path-params", f"{request.path_params}")
        await anyio.sleep(0)
        step(request.scope, request.receive, None, "endpoint2")
        return PlainTextResponse("x")

    async def ws(websocket):
        step(websocket.scope, None, None, "endpoint")
        mon.ok(websocket.path_params == {**({} if "path_params" in case["missing"] else {"p": websocket.scope["token"]}), "id": int(websocket.scope["token"][1:]), **({"m": "mm"} if case["via"] == "mounted" else {})}, "path-params", f"{websocket.path_params}")
        await anyio.sleep(0)
        step(websocket.scope, None, None, "endpoint2")
        await websocket.accept()
        await websocket.close()

    routes = [Route("/e/{id:int}", endpoint), WebSocketRoute("/e/{id:int}", ws)]
    prefix = ""
    apps = {}

    def keep(name, app):
        app.state.name = name
        app.state.n = case["seed"]
        apps[name] = (app, {"name": name, "n": case["seed"]})
        return app

    if case["via"] == "mounted":
        routes = [Mount("/{m}", app=keep("inner", Starlette(routes=routes, middleware=[Middleware(Pure, level="inner")])))]
        prefix = "/mm"
    mw = [Middleware(Pure, level="outer")] + ([Middleware(Base), Middleware(Pure, level="second")] if case["via"] == "middleware" else [])
    app = keep("outer", Starlette(routes=routes, middleware=mw))

    async def main():
        async def one(i):
            scope = build(case, f"t{i}")
            scope.update(token=f"t{i}", path=f"{prefix}/e/{i}", raw_path=f"{prefix}/e/{i}".encode())
            # (url accesses compare with this connection's own path)
            models[f"t{i}"] = dict(scope.get("state", {}))
            t = Trace()
            if kind == "http":
                await call_app(app, scope, ServerSide(t, jit=Jit(case["seed"] + i, 1)), t)
            else:
                inbox = [{"type": "websocket.connect"}]

                async def receive():
                    return inbox.pop(0) if inbox else {"type": "websocket.disconnect", "code": 1005}

                async def send(m):
                    pass

                try:
                    await app(scope, receive, send)
                except Exception as exc:
                    t.exc = exc
            if t.exc:
                raise t.exc

        async with anyio.create_task_group() as tg:
            for i in range(3):
                tg.start_soon(one, i)

    run_async(case["backend"], case["seed"], main)
    want = {"outer", "endpoint", "endpoint2"} | ({"inner"} if case["via"] == "mounted" else set()) | ({"second"} | ({"base"} if kind == "http" else set()) if case["via"] == "middleware" else set())
    for i in range(3):
        mon.eq({l for t, l in seen if t == f"t{i}"}, want, "levels", "levels that saw the connection")
