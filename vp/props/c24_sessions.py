from __future__ import annotations

import copy
import json
import random
import time
from email.utils import parsedate_to_datetime

from starlette.datastructures import Secret
from starlette.middleware.sessions import SessionMiddleware
from starlette.requests import Request
from starlette.websockets import WebSocket

from vp import gens
from vp.asgi import drive, hdr, http_protocol, http_scope, ws_scope
from vp.props.c13_routing import drive_any

ID = "C24"
PROP = dict(
    title="Sessions persist across requests and cannot be forged",
    statement=(
        "For every history of requests, what an application stored in request.session (any JSON data, nested mutations and deletions included) is exactly what it reads on the browser's next HTTP or WebSocket request until max_age has passed since the last response, and emptying the session removes the cookie; a session that was never used sets no cookie. "
        "A cookie whose content or signature was altered in any way, signed with another secret, expired or made up is treated as no session, never as an error and never as data the server did not issue. "
        "The cookie is set with exactly the configured name, path, domain, Max-Age, SameSite, HttpOnly and Secure attributes, and the rest of the response (including other cookies) is unchanged."
    ),
    over=["inputs", "histories", "configurations"],
    quant="every session content and mutation history, clock advance relative to max_age, tampering of the cookie, configuration, other cookies around it",
    why="tests store one value and try one bad cookie",
    files=["starlette/middleware/sessions.py"],
    mechanism=[("sign / unsign / Set-Cookie", "starlette/middleware/sessions.py:SessionMiddleware")],
)
TECH = "runtime monitoring: browser-model histories under a controlled clock; every session observed by the application checked against the set of sessions issued"
RULE = "each case is a configuration and a history of 10-25 requests, clock advances and tamperings; non-trivial when sessions seen by the application were compared with the model"
LEVEL_NOTE = "held on the generated histories; forgery is tried by mutation, splicing and other keys, not by cryptanalysis"
BUDGET = {"quick": (60000, 9), "thorough": (500000, 120)}
REQUIRED = ("requests", "sessions read back", "forged cookies", "expired cookies", "cleared sessions", "websocket requests", "no cookie when unused", "visitors meanwhile", "cookie attributes")

NAMES = ["session", "sid", "my-session", "s", "__Host-s", "session_id"]


def fixed(tier):
    out = []
    for ma in (None, 1, 60, 14 * 86400):
        for same in ("lax", "strict", "none"):
            for https in (False, True):
                for dom in (None, "example.com"):
                    ops = [["none"], ["set", {"a": 1}], ["get"], ["ws"], ["set", {"b": {"c": [1, "é", None, 1.5, True]}}], ["get"], ["nest"], ["get"], ["pop", "a"], ["get"], ["tick", 1], ["get"], ["clear"], ["get"], ["none"], ["set", {"x": ""}], ["tick", ma or 10**9], ["get"], ["tick", (ma or 10**9) + 1], ["get"], ["ws"], ["set", {"z": 1}], ["replace", {"q": 1}], ["get"], ["popall"], ["get"], ["setclear"], ["get"], ["fail"], ["get"]]
                    out.append(dict(cookie="session", max_age=ma, path="/", same=same, https=https, domain=dom, secret="key", ops=ops, seed=0))
    for seed in range(40):
        ops = [["set", {"user": "bob", "admin": False}], ["get"]]
        for k in ["flip", "flipsig", "flippay", "trunc", "extend", "swap", "otherkey", "junk", "unsigned", "empty", "dots", "oldsig", "newts", "payload", "case", "prefix", "suffix"]:
            ops += [["forge", k], ["forge", k]]
        ops += [["get"], ["forgews", "flip"], ["forgews", "junk"], ["get"]]
        out.append(dict(cookie=NAMES[seed % 6], max_age=[None, 60][seed % 2], path="/", same="lax", https=False, domain=None, secret=["key", "", "é", "k" * 200][seed % 4], ops=ops, seed=seed))
    return out


def gen(rng, tier):
    ops = []
    ma = rng.choice([None, 1, 2, 60, 3600, 14 * 86400])
    for _ in range(rng.randrange(10, 25)):
        r = rng.random()
        if r < 0.25:
            v = {gens.text(rng, 0, 5) or "k": gens.json_value(rng) for _ in range(rng.randrange(0, 4))}
            ops.append(["set", json.loads(json.dumps(v))])
        elif r < 0.5:
            ops.append(["get"])
        elif r < 0.56:
            ops.append(["nest"])
        elif r < 0.6:
            ops.append(["clear"])
        elif r < 0.63:
            ops.append(["popall"])
        elif r < 0.66:
            ops.append(["none"])
        elif r < 0.68:
            ops.append(["setclear"])
        elif r < 0.7:
            ops.append(["fail"])
        elif r < 0.74:
            ops.append(["replace", {"r": rng.randrange(9)}])
        elif r < 0.82:
            ops.append(["tick", rng.choice([0, 1, (ma or 50) - 1, ma or 50, (ma or 50) + 1, (ma or 50) * 2, 10**6])])
        elif r < 0.87:
            ops.append(["ws"])
        elif r < 0.9:
            ops.append(["forgews", rng.choice(["flip", "junk", "trunc", "otherkey"])])
        else:
            ops.append(["forge", rng.choice(["flip", "flipsig", "flippay", "trunc", "extend", "swap", "otherkey", "junk", "unsigned", "empty", "dots", "oldsig", "newts", "payload", "case", "prefix", "suffix"])])
    return dict(cookie=rng.choice(NAMES), max_age=ma, path=rng.choice(["/", "/app", "/a/b"]), same=rng.choice(["lax", "strict", "none"]), https=rng.random() < 0.3, domain=rng.choice([None, None, "example.com", ".example.org"]), secret=rng.choice(["key", "s3cr3t", "é", "x" * 100, "a.b", "null"]), ops=ops, seed=rng.randrange(10**6))


class Clock:
    def __init__(self):
        self.now = 1_700_000_000.25

    def __call__(self):
        return self.now


class Boom(Exception):
    pass


def forge(kind, cookies, history, rng):
    cur = cookies
    if kind == "junk" or cur is None:
        return rng.choice(["junk", "a.b.c", "e30=.AAAA.BBBB", "null", "\xe9", "....", "=", "e30.e30.e30", "x" * 3000, "eyJhIjogMX0=", "eyJhIjogMX0=.ZZZZ", '"quoted"', "%00", ".", "null.null.null"])
    parts = cur.split(".")
    b = list(cur)
    al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    if kind in ("flip", "flipsig", "flippay"):
        lo, hi = {"flip": (0, len(b)), "flipsig": (cur.rindex(".") + 1, len(b)), "flippay": (0, len(parts[0]))}[kind]
        i = rng.randrange(lo, hi)
        b[i] = rng.choice([c for c in al if c != b[i]])
        return "".join(b)
    if kind == "trunc":
        return cur[: rng.randrange(len(cur))]
    if kind == "extend":
        return cur + rng.choice(["A", ".", "=", "AA==", ".AAAA"])
    if kind == "swap":
        other = rng.choice(history).split(".")
        if len(other) == len(parts):
            k = rng.randrange(3)
            return ".".join([(other if k == j else parts)[j] for j in range(3)])
    if kind == "unsigned":
        return parts[0]
    if kind == "dots":
        return parts[0] + ".."
    if kind == "empty":
        return ""
    if kind == "oldsig":
        return rng.choice(history)  # an older genuine cookie: acceptable if not expired
    if kind == "newts":
        return ".".join([parts[0], "ZZZZZZ", parts[-1]])
    if kind == "case":
        return cur.swapcase()
    if kind == "prefix":
        return "A" + cur
    if kind == "suffix":
        return cur + cur
    import base64

    if kind == "payload":
        return base64.b64encode(json.dumps({"admin": True}).encode()).decode() + "." + ".".join(parts[1:])
    return cur[::-1]


def run(case, mon):
    clock = Clock()
    real = time.time
    time.time = clock
    try:
        _run(case, mon, clock)
    finally:
        time.time = real


def _run(case, mon, clock):
    rng = random.Random(case["seed"])
    seen = {}

    async def app(scope, receive, send):
        if scope["type"] == "websocket":
            ws = WebSocket(scope, receive, send)
            seen["session"] = copy.deepcopy(dict(ws.session))
            await ws.accept()
            await ws.close()
            return
        if scope["type"] == "lifespan":
            seen["lifespan"] = "session" in scope
            return
        request = Request(scope)
        s = request.session
        if scope["path"] == "/visitor":
            visitor["session"] = copy.deepcopy(dict(s))
            if visitor["kind"] == "login":
                s["visitor"] = visitor["n"]
            elif visitor["kind"] == "logout":
                s.clear()
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body", "body": b"v"})
            return
        seen["session"] = copy.deepcopy(dict(s))
        op = seen["op"]
        visitor["turn"] += 1
        when = visitor["turn"] % 3 if case["seed"] % 2 else 0
        if when == 1:
            await meanwhile()
        if op[0] == "set":
            s.update(copy.deepcopy(op[1]))
        elif op[0] == "nest":
            s.setdefault("~nest", {}).setdefault("l", []).append(len(s))
        elif op[0] == "pop":
            s.pop(op[1], None)
        elif op[0] == "popall":
            for k in list(s):
                del s[k]
        elif op[0] == "clear":
            s.clear()
        elif op[0] == "setclear":
            s["tmp"] = 1
            s.clear()
        elif op[0] == "replace":
            scope["session"] = copy.deepcopy(op[1])
        seen["after"] = copy.deepcopy(dict(scope["session"]))
        if when == 2:
            await meanwhile()
        if op[0] == "fail":
            raise Boom
        await send({"type": "http.response.start", "status": 200, "headers": hdr([["set-cookie", "other=1"], ["x-a", "b"], ["set-cookie", "two=2"]])})
        await send({"type": "http.response.body", "body": b"o", "more_body": True})
        await send({"type": "http.response.body", "body": b"k"})

    visitor = {"n": 0, "turn": 0, "cookie": None, "held": {}}

    async def meanwhile():
        # another visitor is served by the same middleware while this request is
        kind = visitor["kind"] = rng.choice(["none", "login", "keep", "logout", "junk"])
        visitor["n"] += 1
        mon.n("visitors meanwhile")
        cookie = {"none": None, "login": None, "junk": "junk"}.get(kind, visitor["cookie"])
        old = visitor["cookie"] if cookie == visitor["cookie"] and kind in ("keep", "logout") else None
        out = []

        async def vsend(m):
            out.append(m)

        await mw(http_scope("GET", "/visitor", [("host", "h")] + ([("cookie", f"{case['cookie']}={cookie}")] if cookie else [])), None, vsend)
        stale = old is not None and case["max_age"] is not None and int(clock.now) - int(visitor["when"]) > case["max_age"]
        want = {} if old is None or stale else visitor["held"]
        mon.eq(visitor["session"], want, "visitor-session", f"{kind} of a visitor meanwhile")
        mine = [v.decode() for h, v in out[0]["headers"] if h == b"set-cookie"]
        set_to = [v.split(";")[0].split("=", 1)[1] for v in mine]
        if kind == "login" or kind == "keep" and want:
            if mon.eq(len(mine), 1, "visitor-cookie", f"{kind} of a visitor meanwhile: {mine}"):
                visitor.update(cookie=set_to[0], when=clock.now, held={"visitor": visitor["n"]} if kind == "login" else want)
        elif kind == "logout" and want:
            mon.ok(len(mine) == 1 and "1970" in mine[0], "visitor-clear", f"{kind} of a visitor meanwhile: {mine}")
            visitor.update(cookie=None, held={})
        else:
            mon.eq(mine, [], "visitor-needless", f"{kind} of a visitor meanwhile")

    def mw_for(secret):
        return SessionMiddleware(app, secret_key=secret, session_cookie=case["cookie"], max_age=case["max_age"], path=case["path"], same_site=case["same"], https_only=case["https"], domain=case["domain"])

    mw = mw_for(Secret(case["secret"]) if rng.random() < 0.5 else case["secret"])
    other = mw_for(case["secret"] + "x")
    cookie = None  # the browser's copy
    expires = None
    model = {}
    issued = []  # (value, session, time)
    shapes = []

    def cookie_header(val):
        cs = [("a", "1"), (case["cookie"] + "2", "zz"), ("x" + case["cookie"], "yy")]
        rng.shuffle(cs)
        if val is not None:
            cs.insert(rng.randrange(len(cs) + 1), (case["cookie"], val))
        return "; ".join(f"{k}={v}" for k, v in cs)

    for k, op in enumerate(case["ops"]):
        if op[0] == "tick":
            clock.now += op[1]
            continue
        if cookie is not None and expires is not None and clock.now > expires + 1.5:
            browser_has = None  # a browser would have dropped it, so also send it sometimes
        else:
            browser_has = cookie
        sent = browser_has if rng.random() < 0.5 else cookie
        ws = op[0] in ("ws", "forgews")
        forged = op[0].startswith("forge")
        if forged:
            mon.n("forged cookies")
            if op[1] == "otherkey":
                seen["op"] = ["set", {"admin": True, "u": 1}]
                t = drive(other, http_scope("GET", "/", [("host", "h")]))
                v = [x for x in t.header_all("set-cookie") if x.startswith(case["cookie"] + "=")]
                if not v:
                    mon.fail("cookie-not-set", "no session cookie was set for a non-empty session")
                    return
                sent = v[0].split(";")[0].split("=", 1)[1]
            else:
                sent = forge(op[1], cookie, [i[0] for i in issued], rng)
        seen.clear()
        seen["op"] = ["get"] if forged or ws else op
        hs = [("host", "h"), ("cookie", cookie_header(sent))]
        # the application may be reached below a prefix; that changes nothing about its cookie
        root = ["", "", "/sub", "/app", "/a"][(case["seed"] + k) % 5]
        scope = (ws_scope if ws else http_scope)(path=root + "/x", headers=hs, root_path=root)
        if root and case["seed"] % 2:
            scope["app_root_path"] = root
        t = drive_any(mw, scope, "asyncio")
        mon.n("requests")
        what = f"{op} with cookie {sent!r}"
        if ws:
            mon.n("websocket requests")
        if t.exc and not (isinstance(t.exc, Boom) and op[0] == "fail"):
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        got = seen.get("session")
        # what may the application have seen?
        fresh = lambda when: case["max_age"] is None or int(clock.now) - int(when) <= case["max_age"]
        match = [(s, w) for v, s, w in issued if v == sent and s]
        if match:
            s, w = match[-1]
            if fresh(w):
                mon.n("sessions read back")
                mon.eq(got, s, "session-lost", what)
            else:
                mon.n("expired cookies")
                mon.eq(got, {}, "expired-session", f"{what}: issued {int(clock.now) - int(w)} s ago, max_age {case['max_age']}")
        elif sent is None or not forged:
            mon.eq(got, {}, "session-from-nowhere", what)
        else:
            # altered: only data that was issued (base64 has spare bits in the last character of the signature) or nothing
            good = [s for v, s, w in issued if fresh(w) and same_bytes(v, sent)]
            mon.ok(got == {} or got in good, "forged-session", f"{what}: the application saw {got}")
        if ws:
            mon.eq([m["type"] for m in t.sent], ["websocket.accept", "websocket.close"], "ws-messages", what)
            continue
        if op[0] == "fail":
            continue
        http_protocol(t, mon)
        mon.eq((t.status, t.chunks), (200, [b"o", b"k"]), "response-changed", what)
        mine = [v for v in t.header_all("set-cookie") if v.startswith(case["cookie"] + "=")]
        rest = [(k, v) for k, v in t.headers if not (k == b"set-cookie" and v.startswith(case["cookie"].encode() + b"="))]
        mon.eq(rest, hdr([["set-cookie", "other=1"], ["x-a", "b"], ["set-cookie", "two=2"]]), "other-headers", what)
        after = seen["after"]
        if after:
            if not mon.eq(len(mine), 1, "cookie-not-set", f"{what}: {mine}"):
                continue
            val, attrs = parse(mine[0])
            mon.n("cookie attributes")
            want = {"path": case["path"], "samesite": case["same"], "httponly": True}
            if case["https"]:
                want["secure"] = True
            if case["domain"]:
                want["domain"] = case["domain"]
            if case["max_age"]:
                want["max-age"] = str(case["max_age"])
            mon.eq(attrs, want, "cookie-attributes", f"{what}: {mine[0]}")
            issued.append((val, json.loads(json.dumps(after)), clock.now))
            if not forged:
                cookie, model = val, after
                expires = clock.now + case["max_age"] if case["max_age"] else None
            else:
                cookie = val
                expires = clock.now + case["max_age"] if case["max_age"] else None
            mon.ok(all(0x20 < ord(c) < 0x7F and c not in ' ",;\\' for c in val), "cookie-value", f"{what}: cookie value {val!r}")
        elif got:
            mon.n("cleared sessions")
            if not mon.eq(len(mine), 1, "clear-not-sent", f"{what}: {t.header_all('set-cookie')}"):
                continue
            val, attrs = parse(mine[0])
            gone = False
            try:
                gone = "expires" in attrs and parsedate_to_datetime(attrs["expires"]).timestamp() < clock.now - 86400
            except Exception:
                pass
            gone = gone or attrs.get("max-age") in ("0", "-1")
            mon.ok(gone, "clear-does-not-expire", f"{what}: {mine[0]}")
            mon.eq((attrs.get("path"), attrs.get("domain")), (case["path"], case["domain"]), "clear-scope", f"{what}: {mine[0]}")
            mon.eq({k: v for k, v in attrs.items() if k in ("samesite", "httponly", "secure")}, {"samesite": case["same"], "httponly": True, **({"secure": True} if case["https"] else {})}, "clear-attributes", f"{what}: {mine[0]}")
            issued.append((val, {}, clock.now))
            cookie = None
        else:
            mon.n("no cookie when unused")
            mon.eq(mine, [], "needless-cookie", what)
        shapes.append((op[0], bool(got), bool(after)))
    drive_any(mw, {"type": "lifespan", "asgi": {}}, "asyncio")
    mon.nontrivial(case["max_age"], shapes)


def same_bytes(a, b):
    """The same signed content and the same signature bytes (base64 padding and spare bits aside)."""
    import base64

    (pa, _, sa), (pb, _, sb) = a.rpartition("."), b.rpartition(".")
    try:
        dec = lambda s: base64.urlsafe_b64decode(s.rstrip("=") + "=" * (-len(s.rstrip("=")) % 4))
        return pa == pb and dec(sa) == dec(sb)
    except Exception:
        return False


def parse(header):
    first, *rest = [p.strip() for p in header.split(";")]
    attrs = {}
    for p in rest:
        k, eq, v = p.partition("=")
        attrs[k.lower()] = v if eq else True
    return first.split("=", 1)[1], attrs
