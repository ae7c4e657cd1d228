from __future__ import annotations

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks
from vp.props.c20_cors import LOOKALIKE, ORIGINS, REGEXES, allowed, config, make, pick_origin

ID = "C21"
PROP = dict(
    title="CORS preflight requests are approved exactly when policy allows them",
    statement=(
        "For every CORSMiddleware configuration and every OPTIONS request with an Origin and an Access-Control-Request-Method, the middleware answers by itself - the application never runs - with 200 exactly when the origin is allowed, the method is one of the configured ones ('*' meaning all standard methods) and every requested header is safelisted or configured ('*' meaning any), compared case-insensitively, and otherwise 400 naming exactly what was refused. "
        "The grants are exactly the configured ones: the origin is granted only if allowed ('*' or that very origin, then with Vary: Origin), and methods, headers (mirrored for '*'), max-age and credentials as configured. "
        "Every other request reaches the application, and no preflight influences another."
    ),
    over=["inputs", "configurations"],
    quant="every configuration, origin, requested method, list of requested headers with any case and spacing, presence or absence of each request header, sequence of preflights",
    why="tests try a handful of combinations",
    files=["starlette/middleware/cors.py"],
    mechanism=[("preflight_response", "starlette/middleware/cors.py:CORSMiddleware")],
)
TECH = "runtime monitoring: recorded preflight responses judged by an independent policy oracle, sequences on one middleware instance"
RULE = "each case is a configuration and 12 requests; non-trivial when decisions were compared with the policy"
LEVEL_NOTE = "held on the generated configurations and requests; an empty Access-Control-Request-Headers value and empty list elements are left out"
BUDGET = {"quick": (60000, 8), "thorough": (500000, 120)}
REQUIRED = ("preflights", "approved", "refused origin", "refused method", "refused headers", "mirrored headers", "passed to the application", "any-case headers")

ALL = ["DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"]
SAFE = ["accept", "accept-language", "content-language", "content-type"]
METHODS = ALL + ["PURGE", "get", "Post", "CONNECT", "TRACE", "GETT", "GE", "", "*", "GET,POST"]
HEADERS = ["X-A", "x-a", "X-B", "Authorization", "content-type", "Content-Type", "Accept", "accept-language", "Content-Language", "x-evil", "x", "X-AB", "*", "cookie", "X-Requested-With"]


def fixed(tier):
    base = dict(allow_origins=["https://example.org"], allow_origin_regex=None, allow_credentials=False, expose_headers=[], allow_methods=["GET"], allow_headers=[], max_age=600)
    out = []
    for am in (["GET"], ["*"], ["GET", "POST"], [], ["PURGE"], ["POST", "*"], ["get"]):
        for ah in ([], ["*"], ["X-A"], ["x-a", "Authorization"]):
            for cred in (False, True):
                for ao in (["https://example.org"], ["*"], []):
                    cfg = dict(base, allow_methods=am, allow_headers=ah, allow_credentials=cred, allow_origins=ao)
                    reqs = [dict(method="OPTIONS", origin="https://example.org", acrm=m, acrh=None) for m in METHODS]
                    reqs += [dict(method="OPTIONS", origin="https://example.org", acrm="GET", acrh=h) for h in HEADERS + ["X-A, X-B", "x-a,authorization", " X-A ,  accept", "accept, x-evil", "x-evil, accept", "CONTENT-TYPE,X-A", "Accept,Accept-Language,Content-Language,Content-Type"]]
                    reqs += [dict(method="OPTIONS", origin="https://evil.com", acrm="GET", acrh=None), dict(method="OPTIONS", origin="https://evil.com", acrm="NOPE", acrh="x-evil"), dict(method="OPTIONS", origin="https://example.org", acrm="GET", acrh="x-a")]
                    reqs += [dict(method="OPTIONS", origin=None, acrm="GET", acrh=None), dict(method="OPTIONS", origin="https://example.org", acrm=None, acrh=None), dict(method="GET", origin="https://example.org", acrm="GET", acrh=None), dict(method="POST", origin="https://evil.com", acrm="GET", acrh="x"), dict(method="OPTIONS", origin="https://example.org", acrm=None, acrh="x-a")]
                    out.append(dict(cfg=cfg, reqs=reqs))
    for r in REGEXES:
        cfg = dict(base, allow_origins=[], allow_origin_regex=r)
        out.append(dict(cfg=cfg, reqs=[dict(method="OPTIONS", origin=o, acrm="GET", acrh=None) for o in ORIGINS + LOOKALIKE]))
    return out


def gen(rng, tier):
    cfg = config(rng)
    reqs = []
    for _ in range(12):
        acrh = None
        if rng.random() < 0.6:
            pool = HEADERS + [h for h in cfg["allow_headers"] if h.isascii() and h != "*"] * 4
            sep = rng.choice([",", ", ", " , "])
            acrh = sep.join(gens.cased(rng, rng.choice(pool)) for _ in range(rng.randrange(1, 5)))
        meth = rng.choice(METHODS + cfg["allow_methods"] * 4)
        reqs.append(dict(method="OPTIONS" if rng.random() < 0.9 else rng.choice(["GET", "options", "HEAD"]), origin=None if rng.random() < 0.05 else pick_origin(rng, cfg), acrm=None if rng.random() < 0.05 else meth, acrh=acrh))
    return dict(cfg=cfg, reqs=reqs)


def run(case, mon):
    cfg = case["cfg"]
    calls = []

    async def inner(scope, receive, send):
        calls.append(1)
        await send({"type": "http.response.start", "status": 299, "headers": []})
        await send({"type": "http.response.body", "body": b"app"})

    app = make(cfg, inner)
    methods = ALL if "*" in cfg["allow_methods"] else cfg["allow_methods"]
    any_header = "*" in cfg["allow_headers"]
    okh = set(SAFE) | {h.lower() for h in cfg["allow_headers"]}
    shapes = []
    for r in case["reqs"]:
        hs = [("host", "h")]
        if r["origin"] is not None:
            hs.append(("origin", r["origin"]))
        if r["acrm"] is not None:
            hs.append(("access-control-request-method", r["acrm"]))
        if r["acrh"] is not None:
            hs.append(("access-control-request-headers", r["acrh"]))
        calls.clear()
        t = drive(app, http_scope(r["method"], "/any/path", hs))
        what = f"{cfg}: {r}"
        if t.exc:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            continue
        http_protocol(t, mon)
        if not (r["method"] == "OPTIONS" and r["origin"] is not None and r["acrm"] is not None):
            mon.n("passed to the application")
            mon.eq((len(calls), t.status, t.body), (1, 299, b"app"), "application-skipped", what)
            continue
        mon.n("preflights")
        mon.eq(len(calls), 0, "application-ran", f"{what}: the application ran for a preflight request")
        failures = []
        ok_origin = allowed(cfg, r["origin"])
        if not ok_origin:
            failures.append("origin")
            mon.n("refused origin")
        if r["acrm"] not in methods:
            failures.append("method")
            mon.n("refused method")
        if r["acrh"] is not None and not any_header:
            names = [h.strip() for h in r["acrh"].split(",")]
            if any(h.lower() not in okh for h in names):
                failures.append("headers")
                mon.n("refused headers")
            elif any(h != h.lower() for h in names):
                mon.n("any-case headers")
        mon.eq(t.status, 400 if failures else 200, "decision", f"{what}: refused parts {failures}")
        if failures:
            text = t.body.decode()
            mon.eq([w for w in ("origin", "method", "headers") if w in text], failures, "refusal-text", f"{what}: {text!r}")
        else:
            mon.n("approved")
        acao = t.header_all("access-control-allow-origin")
        vary = [x.strip().lower() for v in t.header_all("vary") for x in v.split(",")]
        star = "*" in cfg["allow_origins"]
        if ok_origin:
            if star and not cfg["allow_credentials"]:
                mon.ok(acao in (["*"], [r["origin"]]), "allow-origin", f"{what}: {acao}")
            else:
                mon.eq(acao, [r["origin"]], "allow-origin", what)
            if acao and acao != ["*"]:
                mon.ok("origin" in vary, "vary", f"{what}: Vary {vary}")
        else:
            mon.eq(acao, [], "allow-origin-to-disallowed", what)
        mon.eq([x.strip() for v in t.header_all("access-control-allow-methods") for x in v.split(",") if x.strip()], list(methods), "allow-methods", what) if "*" not in cfg["allow_methods"] else mon.eq(sorted(x.strip() for v in t.header_all("access-control-allow-methods") for x in v.split(",")), sorted(ALL), "allow-methods", what)
        mon.eq(t.header_all("access-control-max-age"), [str(cfg["max_age"])], "max-age", what)
        mon.eq(t.header_all("access-control-allow-credentials"), ["true"] if cfg["allow_credentials"] else [], "credentials", what)
        ah = t.header_all("access-control-allow-headers")
        if any_header:
            if r["acrh"] is not None:
                mon.n("mirrored headers")
                mon.eq(ah, [r["acrh"]], "mirrored-headers", what)
            else:
                mon.ok(len(ah) <= 1, "allow-headers", f"{what}: {ah}")
        else:
            mon.eq({x.strip().lower() for v in ah for x in v.split(",")}, okh, "allow-headers", what)
        shapes.append((failures, acao == ["*"]))
    mon.nontrivial(cfg, shapes)
