from __future__ import annotations

import re

import anyio

from starlette.middleware.cors import CORSMiddleware

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, hdr, http_protocol, http_scope, no_leaks, run_async, ws_scope

ID = "C20"
PROP = dict(
    title="CORS grants cross-origin access to allowed origins only",
    statement=(
        "For every CORSMiddleware configuration, application response and request, the response to a (non-preflight) request with an Origin has exactly one Access-Control-Allow-Origin when that origin is allowed - the origin itself if it is listed or fully matches the pattern, and with '*' configured either '*' or, "
        "when the request carries a cookie, the origin - and none when it is not allowed; whenever the origin is echoed Vary includes Origin, and the credentials and exposed-headers grants are exactly the configured ones. "
        "Everything else the application sent - status, other headers, Vary entries, cookies, body chunks, exceptions - is unchanged, requests without an Origin and other scopes pass untouched, and concurrent requests never receive each other's grants."
    ),
    over=["inputs", "configurations", "schedules"],
    quant="every origin list, regular expression, credentials and expose setting, request origin (look-alikes, case, ports, null), application response and interleaving of requests",
    why="tests try one allowed and one disallowed origin per configuration",
    files=["starlette/middleware/cors.py", "starlette/datastructures.py"],
    mechanism=[("simple_response / send / is_allowed_origin", "starlette/middleware/cors.py:CORSMiddleware")],
)
TECH = "runtime monitoring: differential trace checking (same application with and without the middleware) plus an origin-policy oracle, requests interleaved under injected scheduling"
RULE = "each case is a configuration, an application response and 1-6 concurrent requests; non-trivial when grants were compared with the policy"
LEVEL_NOTE = "held on the generated configurations and requests; applications that set Access-Control headers themselves are left out"
BUDGET = {"quick": (60000, 9), "thorough": (500000, 120)}
REQUIRED = ("requests", "allowed", "disallowed", "wildcard", "wildcard with cookie", "no origin", "interleaved requests", "regex allowed", "look-alikes refused", "other scopes", "exceptions relayed", "grants of the application replaced")

ORIGINS = ["https://example.org", "http://example.org", "https://example.org:8443", "https://a.example.org", "https://sub.a.example.org", "https://example.com", "null", "https://evil.com", "chrome-extension://abc", "http://localhost:3000"]
LOOKALIKE = ["https://example.org.evil.com", "https://EXAMPLE.org", "https://example.org/", "https://example.orgx", "xhttps://example.org", "https://example.org:444", "https://exampleXorg", "https://a.example.org.evil.com", "https://evil.com/https://example.org", "https://aaexample.org", "*", "", "http", "https://", "https://example.org https://evil.com", "https://example.org,https://evil.com", "example.org", "https://a.example.org\x0b", "null ", "NULL"]
REGEXES = [r"https://.*\.example\.org", r"https://.*", r"https://(a|b)\.example\.org", r"https?://localhost(:\d+)?", r"https://example.org|https://evil", r".*", r"", r"(?i)https://example\.org", r"null", r"https://example\.org$", r"^https://[a-z]+\.example\.org"]


def config(rng):
    r = rng.random()
    if r < 0.3:
        origins = ["*"] if rng.random() < 0.8 else ["https://example.org", "*"]
    elif r < 0.4:
        origins = []
    else:
        origins = rng.sample(ORIGINS, rng.randrange(1, 4))
    return dict(
        allow_origins=origins,
        allow_origin_regex=rng.choice(REGEXES) if rng.random() < 0.35 else None,
        allow_credentials=rng.random() < 0.4,
        expose_headers=rng.choice([[], [], ["X-Status"], ["X-A", "x-b", "X-C"]]),
        allow_methods=rng.choice([["GET"], ["*"], ["GET", "POST"], ["PUT", "PATCH"], [], ["GET", "PURGE"], ["get"]]),
        allow_headers=rng.choice([[], ["*"], ["X-A"], ["x-a", "Authorization"], ["Content-Type", "X-B"], ["X-Ü"], ["*", "X-A"]]),
        max_age=rng.choice([600, 600, 0, 1, 86400]),
    )


def allowed(cfg, origin):
    if "*" in cfg["allow_origins"]:
        return True
    if cfg["allow_origin_regex"] is not None:
        if re.fullmatch(cfg["allow_origin_regex"], origin):
            return True
    return any(origin == o for o in cfg["allow_origins"])


def pick_origin(rng, cfg):
    r = rng.random()
    if r < 0.4 and cfg["allow_origins"]:
        o = rng.choice(cfg["allow_origins"])
        if rng.random() < 0.25:
            o = rng.choice([o + "x", o.upper(), o[:-1], o + "/", o + ".evil.com", "http" + o, o + ":80"])
        return o
    return rng.choice(ORIGINS + LOOKALIKE)


def fixed(tier):
    out = []
    base = dict(allow_origins=[], allow_origin_regex=None, allow_credentials=False, expose_headers=[], allow_methods=["GET"], allow_headers=[], max_age=600)
    cfgs = [dict(base)] + [dict(base, allow_origins=[o]) for o in ("*", "https://example.org", "null")] + [dict(base, allow_origin_regex=r) for r in REGEXES]
    cfgs += [dict(base, allow_origins=["*"], allow_credentials=True), dict(base, allow_origins=["https://example.org", "https://example.com"], allow_credentials=True, expose_headers=["X-A", "X-B"]), dict(base, allow_origins=["https://evil.com"], allow_origin_regex=REGEXES[0]), dict(base, allow_origins=["*", "https://example.org"])]
    for exc in ("before", "after"):
        for o in ("https://example.org", None):
            out.append(dict(cfg=cfgs[1], reqs=[dict(origin=o, cookie=None, method="GET", acrm=None)], headers=[], chunks=["x"], exc=exc, jit=1, seed=1, backend="asyncio", debug=False))
    for cfg in cfgs:
        for o in ORIGINS + LOOKALIKE + [None]:
            reqs = [dict(origin=o, cookie=ck, method=m, acrm=None) for ck in (None, "a=b") for m in ("GET", "OPTIONS", "POST")]
            for hs in ([], [["vary", "Accept-Encoding"]], [["vary", "A"], ["set-cookie", "a"], ["vary", "B, C"], ["set-cookie", "b"]]):
                if not hs:
                    out.append(dict(cfg=cfg, reqs=reqs, headers=hs, own=["https://other.org"], chunks=["one"], exc=None, jit=0, seed=1, backend="asyncio", debug=False))
                out.append(dict(cfg=cfg, reqs=reqs, headers=hs, chunks=["one", "two"], exc=None, jit=1, seed=1, backend="asyncio", debug=False))
    return out


def gen(rng, tier):
    cfg = config(rng)
    hs = []
    for _ in range(rng.randrange(0, 5)):
        r = rng.random()
        if r < 0.3:
            hs.append(["vary", rng.choice(["Accept-Encoding", "Cookie", "Accept, Cookie", "Accept-Language"])])
        elif r < 0.5:
            hs.append(["set-cookie", gens.token(rng) + "=1"])
        else:
            hs.append([gens.header_name(rng).lower(), gens.header_value(rng)])
    reqs = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        reqs.append(dict(origin=None if rng.random() < 0.12 else pick_origin(rng, cfg), cookie=rng.choice([None, None, "a=b", ""]), method=rng.choice(["GET", "POST", "OPTIONS", "HEAD", "PUT"]), acrm="PUT" if rng.random() < 0.1 else None))
    own = rng.choice([["*"], ["https://other.org"], ["https://example.org"], ["*", "https://other.org"]]) if rng.random() < 0.15 else []
    return dict(cfg=cfg, reqs=reqs, headers=hs, own=own, chunks=[gens.text(rng, 0, 20, uni=False) for _ in range(rng.randrange(0, 4))], exc=rng.choice([None, None, None, None, "before", "after"]), jit=rng.choice([0, 1, 2, 3]), seed=rng.randrange(10**6), backend=gens.backend(rng), debug=rng.random() < 0.1)


class Boom(Exception):
    pass


def make(cfg, app):
    return CORSMiddleware(app, **{k: (tuple(v) if isinstance(v, list) else v) for k, v in cfg.items()})


def run(case, mon):
    cfg = case["cfg"]

    def own(n):
        """Grants the application sends itself: those of the middleware take their place."""
        o = case["reqs"][n]["origin"]
        if not case.get("own") or o is None or not allowed(cfg, o):
            return []
        hs = [(b"access-control-allow-origin", v.encode()) for v in case["own"]]
        if cfg["allow_credentials"]:
            hs.append((b"access-control-allow-credentials", b"false"))
        if cfg["expose_headers"]:
            hs.append((b"access-control-expose-headers", b"x-own"))
        mon.n("grants of the application replaced")
        return hs

    async def inner(scope, receive, send):
        if scope["type"] != "http":
            await send({"type": scope["type"] + ".x"})
            return
        if case["exc"] == "before":
            raise Boom
        if case["debug"]:
            await send({"type": "http.response.debug", "info": {}})
        await anyio.sleep(0)
        n = scope["n"]
        await send({"type": "http.response.start", "status": 200 + n, "headers": own(n) + hdr(case["headers"]) + [(b"x-n", str(n).encode())]})
        for c in case["chunks"]:
            await send({"type": "http.response.body", "body": c.encode("latin-1", "replace"), "more_body": True})
        if case["exc"] == "after":
            raise Boom
        await send({"type": "http.response.body", "body": b"end %d" % n})

    app = make(cfg, inner)
    traces = []

    async def main():
        async def one(i, r):
            hs = [("host", "h")]
            if r["origin"] is not None:
                hs.append(("origin", r["origin"]))
            if r["cookie"] is not None:
                hs.append(("cookie", r["cookie"]))
            if r["acrm"] and r["method"] != "OPTIONS":
                hs.append(("access-control-request-method", r["acrm"]))
            for a in (app, inner):
                t = Trace()
                server = ServerSide(t, jit=Jit(case["seed"] + i, case["jit"]))
                await call_app(a, http_scope(r["method"], "/", hs, n=i), server, t)
                traces.append((i, r, t))

        async with anyio.create_task_group() as tg:
            for i, r in enumerate(case["reqs"]):
                tg.start_soon(one, i, r)

    _, errs = run_async(case["backend"], case["seed"], main)
    for e in errs:
        mon.fail("loop-error", str(e))
    if len(case["reqs"]) > 1:
        mon.n("interleaved requests")
    # other scopes
    for sc in (ws_scope("/", [("origin", "https://example.org")]), {"type": "lifespan", "asgi": {}}):
        sent = []

        async def rec(m):
            sent.append(m)

        async def other():
            await app(sc, None, rec)

        run_async("asyncio", 0, other)
        mon.n("other scopes")
        mon.eq(sent, [{"type": sc["type"] + ".x"}], "other-scope", sc["type"])

    by = {}
    for i, r, t in traces:
        by.setdefault(i, []).append((r, t))
    shapes = []
    for i, pair in by.items():
        r = pair[0][0]
        t, plain = pair[0][1], pair[1][1]
        o = r["origin"]
        what = f"{cfg} request {r}"
        mon.n("requests")
        if case["exc"]:
            mon.n("exceptions relayed")
            mon.ok(isinstance(t.exc, Boom), "exception", f"{what}: {t.exc!r}")
        elif t.exc:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        if t.start is None:
            mon.eq(plain.start, None, "start-lost", what)
            continue
        http_protocol(t, mon)
        got = t.headers
        mon.eq((t.status, t.chunks, [m["type"] for m in t.sent]), (plain.status, plain.chunks, [m["type"] for m in plain.sent]), "response-changed", what)
        if o is None:
            mon.n("no origin")
            mon.eq(got, plain.headers, "no-origin-untouched", what)
            continue
        cors = {}
        for k, v in got:
            if k.startswith(b"access-control-"):
                cors.setdefault(k.decode(), []).append(v.decode("latin-1"))
        strip = lambda hs: [(k, v) for k, v in hs if not k.startswith(b"access-control-") and k != b"vary"]
        mon.eq(strip(got), strip(plain.headers), "other-headers", what)

        def vary(t):
            return [x.strip().lower() for v in t.header_all("vary") for x in v.split(",") if x.strip()]

        acao = cors.get("access-control-allow-origin")
        star = "*" in cfg["allow_origins"]
        if allowed(cfg, o):
            mon.n("allowed")
            if star:
                mon.n("wildcard")
                want = [["*"], [o]] if not r["cookie"] else [[o]]
                if r["cookie"] is not None:
                    mon.n("wildcard with cookie")
                mon.ok(acao in want, "allow-origin", f"{what}: Access-Control-Allow-Origin {acao}, allowed are {want}")
            else:
                if o not in cfg["allow_origins"]:
                    mon.n("regex allowed")
                mon.eq(acao, [o], "allow-origin", what)
        else:
            mon.n("disallowed")
            if o in LOOKALIKE:
                mon.n("look-alikes refused")
            mon.eq(acao, None, "allow-origin-to-disallowed", what)
        echoed = acao is not None and acao != ["*"]
        gv, pv = vary(t), vary(plain)
        if echoed:
            mon.ok("origin" in gv, "vary-origin", f"{what}: origin echoed but Vary is {gv}")
        mon.eq(set(gv) - {"origin"}, set(pv) - {"origin"}, "vary-kept", what)
        if not echoed and o != "*":
            mon.eq(gv, pv, "vary-unneeded", what)
        if allowed(cfg, o):
            mon.eq(cors.get("access-control-allow-credentials"), ["true"] if cfg["allow_credentials"] else None, "credentials", what)
            ex = cors.get("access-control-expose-headers")
            names = [x.strip() for v in ex or [] for x in v.split(",")]
            mon.eq(names, cfg["expose_headers"], "expose", what)
        elif not cfg["allow_credentials"]:
            mon.eq(cors.get("access-control-allow-credentials"), None, "credentials-unconfigured", what)
        extra = set(cors) - {"access-control-allow-origin", "access-control-allow-credentials", "access-control-expose-headers"}
        mon.ok(not extra, "unexpected-grant", f"{what}: {cors}")
        shapes.append((acao is not None, echoed, star))
    mon.nontrivial(sorted(shapes), case["exc"], len(case["reqs"]), case["headers"][:2])
