"""Routing trees: generator, construction of the real application, and an
independent model of which endpoint must answer a request (no regular
expressions, no code shared with starlette.routing)."""
from __future__ import annotations

import functools
import random
import uuid

HEX = "0123456789abcdefABCDEF"
DIG = "0123456789"
LITERALS = ["a", "b", "ab", "a.b", "x+y", "(z)", "a b", "é", "$", "^", "a|b", "[c]", "1", "12", "1.5", "a-b", "*", "\\d", "~", "%41", "?q", "#f"]
TYPES = ["str", "str", "str", "int", "float", "path", "uuid", "hex2"]
METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "BREW", "get"]


# ------------------------------------------------------------------ templates
def tokens(template):
    """'/a/{x:int}-b' -> ['/a/', ('x', 'int'), '-b']"""
    out, i, lit = [], 0, ""
    while i < len(template):
        if template[i] == "{":
            j = template.find("}", i)
            body = template[i + 1 : j]
            nm, _, ty = body.partition(":")
            if j > 0 and nm and (nm[0].isalpha() or nm[0] == "_") and nm.replace("_", "a").isalnum() and nm.isascii() and (":" not in body or ty):
                if lit:
                    out.append(lit)
                lit = ""
                out.append((nm, ty or "str"))
                i = j + 1
                continue
        lit += template[i]
        i += 1
    if lit:
        out.append(lit)
    return out


def candidates(ty, s, i):
    """End positions at which a value of type `ty` starting at i may end, in order of preference."""
    n = len(s)
    if ty == "str":
        j = i
        while j < n and s[j] != "/":
            j += 1
        return range(j, i, -1)
    if ty == "path":
        return range(n, i - 1, -1)
    if ty == "int":
        j = i
        while j < n and s[j] in DIG:
            j += 1
        return range(j, i, -1)
    if ty == "float":
        j = i
        while j < n and s[j] in DIG:
            j += 1
        whole = list(range(j, i, -1))
        if whole and j < n and s[j] == ".":
            k = j + 1
            while k < n and s[k] in DIG:
                k += 1
            return list(range(k, j + 1, -1)) + whole
        return whole
    if ty == "uuid":
        j, groups = i, (8, 4, 4, 4, 12)
        for g, cnt in enumerate(groups):
            if g and j < n and s[j] == "-":
                j += 1
            if j + cnt > n or any(c not in HEX for c in s[j : j + cnt]):
                return []
            j += cnt
        return [j]
    if ty == "hex2":
        if i + 2 <= n and all(c in "0123456789abcdef" for c in s[i : i + 2]):
            return [i + 2]
        return []
    raise ValueError(ty)


def convert(ty, v):
    if ty == "int":
        return int(v)
    if ty == "float":
        return float(v)
    if ty == "uuid":
        return uuid.UUID(v)
    if ty == "hex2":
        return int(v, 16)
    return v


def match(toks, s, i=0, k=0):
    """Whole-string match, leftmost parameter longest first; raw values or None."""
    if k == len(toks):
        return {} if i == len(s) else None
    t = toks[k]
    if isinstance(t, str):
        return match(toks, s, i + len(t), k + 1) if s.startswith(t, i) else None
    for j in candidates(t[1], s, i):
        rest = match(toks, s, j, k + 1)
        if rest is not None:
            rest = dict(rest)
            rest[t[0]] = s[i:j]
            return rest
    return None


def match_conv(template, s):
    toks = tokens(template)
    m = match(toks, s)
    if m is None:
        return None
    types = dict(t for t in toks if not isinstance(t, str))
    return {k: convert(types[k], v) for k, v in m.items()}


# ------------------------------------------------------------------ generation
class NameGen:
    def __init__(self):
        self.n = 0
        self.p = 0
        self.m = 0

    def leaf(self):
        self.n += 1
        return self.n

    def param(self):
        self.p += 1
        return f"p{self.p}"


def gen_template(rng, names, lo=1, hi=4, types=TYPES, literals=LITERALS):
    out = ""
    for _ in range(rng.randrange(lo, hi + 1)):
        out += "/"
        r = rng.random()
        if r < 0.45:
            out += rng.choice(literals[:4] if rng.random() < 0.6 else literals)
        elif r < 0.85:
            ty = rng.choice(types)
            p = names.param()
            out += "{%s}" % p if ty == "str" and rng.random() < 0.5 else "{%s:%s}" % (p, ty)
            if rng.random() < 0.15:
                out += rng.choice(["-", ".", "x", ".json"]) + "{%s:%s}" % (names.param(), rng.choice(types))
        elif r < 0.92:
            out += rng.choice(literals) + "{%s}" % names.param()
    if rng.random() < 0.15:
        out += "/"
    return out or "/"


def gen_tree(rng, depth=2, names=None, width=(1, 5), hosts=True, ws=True, name_pool=None, types=TYPES, literals=LITERALS):
    """List of nodes: ['route', id, template, methods|None, kind, name], ['ws', id, template, kind, name],
    ['mount', template, how, children, name], ['host', pattern, how, children, name], ['app', id, template, name]."""
    names = names or NameGen()
    pool = name_pool or ["n1", "n2", "n3", "n4", "n5", "n6"]
    out = []
    for _ in range(rng.randrange(*width) + 1 if depth else rng.randrange(width[0], width[1])):
        r = rng.random()
        nm = rng.choice(pool)
        if r < 0.55 or depth == 0:
            kind = rng.choice(["func", "func", "sync", "partial", "method", "asgi", "class"])
            methods = None
            if kind not in ("asgi", "class") or rng.random() < 0.5:
                methods = rng.choice([None, ["GET"], ["POST"], ["GET", "POST"], ["put", "Delete"], ["HEAD"], [rng.choice(METHODS)]])
            out.append(["route", names.leaf(), gen_template(rng, names, types=types, literals=literals), methods, kind, nm])
        elif r < 0.68 and ws:
            out.append(["ws", names.leaf(), gen_template(rng, names, types=types, literals=literals), rng.choice(["func", "method", "asgi"]), nm])
        elif r < 0.75:
            out.append(["app", names.leaf(), rng.choice(["", "/"]) if rng.random() < 0.1 else gen_template(rng, names, 1, 2, types=types, literals=literals), nm if rng.random() < 0.7 else None])
        elif r < 0.92 or not hosts:
            how = rng.choice(["routes", "router", "starlette", "router"])
            path = rng.choice(["", "/"]) if rng.random() < 0.15 else gen_template(rng, names, 1, 2, types=types, literals=literals)
            out.append(["mount", path, how, gen_tree(rng, depth - 1, names, (1, 4), hosts, ws, pool, types, literals), nm if rng.random() < 0.7 else None])
        else:
            pat = rng.choice(["h.test", "{%s}.h.test" % names.param(), "{%s}.{%s:int}.org" % (names.param(), names.param()), "api.h.test", "x.y"])
            out.append(["host", pat, rng.choice(["router", "starlette"]), gen_tree(rng, depth - 1, names, (1, 4), hosts, ws, pool, types, literals), nm if rng.random() < 0.7 else None])
    return out


def gen_value(rng, ty):
    if ty == "int":
        return rng.choice(["0", "7", "007", "12", "123456789012345678901234567890", str(rng.randrange(1000))])
    if ty == "float":
        return rng.choice(["0", "1.5", "12", "0.0001", "00.50", "3.14159", str(rng.randrange(100)), "1e5"])
    if ty == "uuid":
        u = uuid.UUID(int=rng.getrandbits(128))
        return rng.choice([str(u), u.hex, str(u).upper()])
    if ty == "hex2":
        return rng.choice(["00", "ff", "a7", "FF"])
    if ty == "path":
        return rng.choice(["", "x", "x/y", "/", "a/b/c.txt", "x\ny", "..", "x//y", "a/"])
    return rng.choice(["x", "a", "1", "ab", "é", "x y", "a.b", "x-y", "%2F", "a?b", "x\n", "..", "12.5", "日本", "{p1}", "x;y"])


def fill(rng, template):
    out = ""
    for t in tokens(template):
        out += t if isinstance(t, str) else gen_value(rng, t[1])
    return out


def gen_request(rng, tree):
    """A path (and host) aimed at a random leaf, possibly spoiled."""
    path, host = "", None
    nodes = tree
    method = rng.choice(METHODS)
    typ = "http"
    while nodes:
        n = rng.choice(nodes)
        if n[0] == "route":
            path += fill(rng, n[2])
            if rng.random() < 0.75:
                method = rng.choice(n[3] or ["GET"]).upper()
            break
        if n[0] == "ws":
            path += fill(rng, n[2])
            if rng.random() < 0.85:
                typ = "websocket"
            break
        if n[0] == "app":
            path += fill(rng, n[2]).rstrip("/") + rng.choice(["/", "/x", "/x/y", "", "/\n"])
            if rng.random() < 0.2:
                typ = "websocket"
            break
        if n[0] == "mount":
            path += fill(rng, n[1].rstrip("/"))
            nodes = n[3]
        else:
            host = "".join(c for c in fill(rng, n[1]) if c.isascii() and (c.isalnum() or c in "-._{}"))
            nodes = n[3]
    r = rng.random()
    if r < 0.06:
        path += rng.choice(["/", "x", "\n", "//", "/x"])
    elif r < 0.09 and path:
        path = path[:-1]
    elif r < 0.12:
        i = rng.randrange(len(path) + 1)
        path = path[:i] + rng.choice("/a1.\n-") + path[i:]
    elif r < 0.14:
        path = path.swapcase()
    elif r < 0.16:
        path = path[1:]
    if not path.startswith("/"):
        path = "/" + path
    if host is None:
        host = rng.choice(["h.test", "testserver", "api.h.test", "h.test:8000", "other.org", "x.y"])
    elif rng.random() < 0.3:
        host += ":8080"
    return dict(type=typ, path=path, host=host, method=method)


# ------------------------------------------------------------------ the model
class Outcome:
    def __init__(self, kind, leaf=None, params=None, allow=None, allow_max=None, root="", rest=None, router_app=True, location=None):
        self.kind = kind  # 'leaf' 'app' '404' '405' 'redirect'
        self.leaf = leaf
        self.params = params
        self.allow = allow
        self.allow_max = allow_max
        self.root = root
        self.rest = rest
        self.location = location

    def __repr__(self):
        return f"<{self.kind} leaf={self.leaf} params={self.params} allow={self.allow} root={self.root!r} loc={self.location!r}>"


def methods_of(node):
    m, kind = node[3], node[4]
    if m is None:
        if kind in ("asgi", "class"):
            return None
        m = ["GET"]
    out = {x.upper() for x in m}
    if "GET" in out:
        out.add("HEAD")
    return out


def probe(nodes, typ, path, host):
    """Does any node of this router match (405s included)?"""
    for n in nodes:
        if n[0] == "route" and typ == "http" and match_conv(n[2], path) is not None:
            return True
        if n[0] in ("mount", "app"):
            if match_conv((n[1] if n[0] == "mount" else n[2]).rstrip("/") + "/{path:path}", path) is not None:
                return True
        if n[0] == "host" and match_conv(n[1], host.split(":")[0]) is not None:
            return True
    return False


def resolve(nodes, req, path=None, params=None, root="", slashes=False):
    """The documented rule: first full match wins; else the first route whose path (not method)
    matches answers 405; else a slash redirect if enabled; else not found."""
    path = req["path"] if path is None else path
    params = params or {}
    typ = req["type"]
    partial = []
    for n in nodes:
        if n[0] == "route":
            if typ != "http":
                continue
            m = match_conv(n[2], path)
            if m is None:
                continue
            ms = methods_of(n)
            if ms is not None and req["method"] not in ms:
                partial.append(ms)
                continue
            return Outcome("leaf", n[1], {**params, **m}, root=root, rest=path)
        if n[0] == "ws":
            if typ != "websocket":
                continue
            m = match_conv(n[2], path)
            if m is not None:
                return Outcome("leaf", n[1], {**params, **m}, root=root, rest=path)
            continue
        if n[0] in ("mount", "app"):
            tpl = (n[1] if n[0] == "mount" else n[2]).rstrip("/")
            m = match_conv(tpl + "/{path:path}", path)
            if m is None:
                continue
            rest = "/" + m.pop("path")
            here = root + path[: len(path) - len(rest)]
            if n[0] == "app":
                return Outcome("app", n[1], {**params, **m}, root=here, rest=rest)
            return resolve(n[3], req, rest, {**params, **m}, here, slashes)
        m = match_conv(n[1], req["host"].split(":")[0])
        if m is not None:
            return resolve(n[3], req, path, {**params, **m}, root, slashes)
    if partial:
        return Outcome("405", allow=partial[0], allow_max=set().union(*partial))
    if slashes and typ == "http" and path != "/":
        if path.endswith("/"):
            # all the trailing slashes of the full path go
            full = (root + path).rstrip("/")
            alt = full[len(root):] if full.startswith(root) else None
        else:
            full = root + path + "/"
            alt = path + "/"
        if alt is not None and probe(nodes, typ, alt, req["host"]):
            return Outcome("redirect", location=full)
    return Outcome("404")


# ------------------------------------------------------------------ the real thing
def build(nodes, record, slashes=False, top="starlette"):
    """Real routes for a tree; every leaf calls record(leaf, scope) and answers with its id."""
    from starlette.applications import Starlette
    from starlette.endpoints import HTTPEndpoint
    from starlette.responses import Response
    from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

    def make(n):
        if n[0] == "route":
            leaf = n[1]

            async def func(request):
                record(leaf, request.scope)
                return Response(str(leaf), 203)

            def sync(request):
                record(leaf, request.scope)
                return Response(str(leaf), 203)

            class Asgi:
                async def __call__(self, scope, receive, send):
                    record(leaf, scope)
                    await Response(str(leaf), 203)(scope, receive, send)

            class Cls(HTTPEndpoint):
                async def dispatch(self):
                    record(leaf, self.scope)
                    await Response(str(leaf), 203)(self.scope, self.receive, self.send)

            class M:
                async def m(self, request):
                    return await func(request)

            ep = {"func": func, "sync": sync, "partial": functools.partial(func), "method": M().m, "asgi": Asgi(), "class": Cls}[n[4]]
            return Route(n[2], ep, methods=n[3], name=n[5])
        if n[0] == "ws":
            leaf = n[1]

            async def wfunc(ws):
                record(leaf, ws.scope)
                await ws.accept()
                await ws.send_text(str(leaf))
                await ws.close()

            class WM:
                async def m(self, ws):
                    await wfunc(ws)

            class WAsgi:
                async def __call__(self, scope, receive, send):
                    from starlette.websockets import WebSocket

                    await wfunc(WebSocket(scope, receive, send))

            return WebSocketRoute(n[2], {"func": wfunc, "method": WM().m, "asgi": WAsgi()}[n[3]], name=n[4])
        if n[0] == "app":
            leaf = n[1]

            async def app(scope, receive, send):
                record(leaf, scope)
                if scope["type"] == "http":
                    await Response(str(leaf), 203)(scope, receive, send)
                else:
                    await receive()
                    await send({"type": "websocket.accept"})
                    await send({"type": "websocket.send", "text": str(leaf)})
                    await send({"type": "websocket.close"})

            return Mount(n[2], app=app, name=n[3])
        kids = [make(c) for c in n[3]]

        def router(how):
            if how == "starlette":
                s = Starlette(routes=kids)
                s.router.redirect_slashes = slashes
                return s
            return Router(routes=kids, redirect_slashes=slashes)

        if n[0] == "mount":
            if n[2] == "routes":
                m = Mount(n[1], routes=kids, name=n[4])
                m.app.redirect_slashes = slashes
                return m
            return Mount(n[1], app=router(n[2]), name=n[4])
        return Host(n[1], app=router(n[2]), name=n[4])

    routes = [make(n) for n in nodes]
    if top == "starlette":
        s = Starlette(routes=routes)
        s.router.redirect_slashes = slashes
        return s
    return Router(routes=routes, redirect_slashes=slashes)


def register_hex2():
    from starlette.convertors import Convertor, register_url_convertor

    class Hex2(Convertor):
        regex = "[0-9a-f]{2}"

        def convert(self, value):
            return int(value, 16)

        def to_string(self, value):
            return "%02x" % value

    register_url_convertor("hex2", Hex2())
