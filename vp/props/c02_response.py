from __future__ import annotations

import datetime
import json
import math
import re

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.datastructures import URL
from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response
from starlette.routing import Route

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks
from vp.engine import mk

ID = "C02"
PROP = dict(
    title="Buffered responses send exactly the status, headers and body they were given",
    statement=(
        "For every content, status code, header mapping, media type and later header mutation, a plain, HTML, text, JSON or "
        "redirect response sends exactly one start message with that status and one complete body holding exactly the rendered "
        "content (text encoded with the response's charset, JSON as UTF-8 that parses back to the same value, with NaN and "
        "infinities refused). Header names go out lower-cased, values latin-1 encoded and unchanged, each supplied header exactly "
        "once and in order; Content-Length (except for 1xx, 204 and 304) equals the body's byte length and Content-Type carries the "
        "media type, with a charset added to text types that have none, unless the caller supplied those headers. A redirect's "
        "Location is the given URL with only characters that are illegal in a URL percent-encoded, existing escapes kept."
    ),
    over=["inputs"],
    quant="every content value and type, status code, header mapping, media type and charset, backend and receiving stack",
    why="tests/test_responses.py samples a handful of contents and header combinations; encoding, length and defaulting rules are claims over all of them",
    files=["starlette/responses.py", "starlette/datastructures.py"],
    mechanism=[("Response.render/init_headers", "starlette/responses.py:Response"), ("RedirectResponse quoting", "starlette/responses.py:RedirectResponse")],
)
TECH = "runtime monitoring: recorded ASGI output of generated responses judged by an independent reference encoder"
RULE = "each case builds one response (class, content, status, headers, media type, post-construction header edits) and records its ASGI messages; non-trivial when a body, a header or a redirect target was actually compared"
LEVEL_NOTE = "held on the generated responses only; the oracle re-implements rendering and header defaulting from the documentation"
BUDGET = {"quick": (60000, 14), "thorough": (1500000, 240)}
REQUIRED = ("responses judged", "json bodies", "redirects")

SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~:/%#?=@[]!$&'()*+,;")


class Utf16(Response):
    media_type = "text/csv"
    charset = "utf-16-le"


class Latin(PlainTextResponse):
    charset = "latin-1"


class App(Response):
    media_type = "application/x-thing"


CLS = {"Response": Response, "HTML": HTMLResponse, "Plain": PlainTextResponse, "JSON": JSONResponse, "Redirect": RedirectResponse, "Utf16": Utf16, "Latin": Latin, "App": App}
DEFAULT_TYPE = {"Response": None, "HTML": "text/html", "Plain": "text/plain", "JSON": "application/json", "Redirect": None, "Utf16": "text/csv", "Latin": "text/plain", "App": "application/x-thing"}
CHARSET = {"Utf16": "utf-16-le", "Latin": "latin-1"}


def fixed(tier):
    out = []
    for cls in CLS:
        for status in (200, 204, 304, 103, 199, 201, 400, 404, 500, 599):
            for c in (["text", ""], ["text", "abc"], ["bytes", "\x00\xff"], ["none"]):
                if cls == "JSON":
                    c = ["json", c[-1]]
                if cls == "Redirect":
                    c = ["text", "/" + c[-1] if c[-1] != "\x00\xff" else "/é x"]
                out.append(dict(cls=cls, content=c, status=status, headers=None, media=None, edits=[], via="raw", backend="asyncio"))
    for bad in ("nan", "inf", "-inf"):
        for wrap in (0, 1, 2):
            out.append(dict(cls="JSON", content=["nonfinite", bad, wrap], status=200, headers=None, media=None, edits=[], via="raw", backend="asyncio"))
    for t in ("text/plain", "text/plain; charset=ascii", "text/html; CHARSET=utf-8", "text/csv;charset=x", "application/json", "TEXT/plain", "image/png", "text", "text/", "application/text", "text/x; boundary=charset"):
        for h in (None, [["content-type", "a/b"]], [["Content-Type", "text/z"]], [["CONTENT-LENGTH", "3"]]):
            out.append(dict(cls="Response", content=["text", "abc"], status=200, headers=h, media=t, edits=[], via="raw", backend="asyncio"))
    return out


def gen(rng, tier):
    cls = rng.choice(list(CLS) + ["JSON", "Redirect"])
    status = rng.choice([200, 200, 201, 204, 205, 206, 301, 302, 303, 307, 308, 304, 400, 404, 418, 500, 503, 100, 102, 199, rng.randrange(200, 600)])
    if cls == "JSON":
        content = ["json", gens.json_value(rng)]
    elif cls == "Redirect":
        content = ["text", rng.choice(["", "/", "https://example.org/", "http://[::1]:80/", "?"]) + gens.text(rng, 0, 14)]
        if rng.random() < 0.3:
            content = ["url", rng.choice(["/", "https://example.org/"]) + gens.text(rng, 0, 14)]
    else:
        r = rng.random()
        if r < 0.15:
            content = ["none"]
        elif r < 0.45:
            content = [rng.choice(["bytes", "memoryview"]), gens.body_spec(rng)]
        else:
            content = ["text", gens.text(rng, 0, 30, uni=cls != "Latin", ctl=True)]
            if cls == "Latin":
                content[1] += rng.choice(["", "é", "ÿ\xa0"])
    headers = None
    if rng.random() < 0.6:
        headers, seen = [], set()
        for _ in range(rng.randrange(0, 7)):
            n = gens.header_name(rng) if rng.random() < 0.85 else gens.cased(rng, rng.choice(["content-type", "content-length", "location"]))
            if cls == "Redirect" and n.lower() == "location":
                continue
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            v = "3" if n.lower() == "content-length" else gens.header_value(rng)
            headers.append([n, v])
    media = rng.choice([None, None, None, "text/css", "text/x; charset=ascii", "application/xml", "image/svg+xml", "text/event-stream"])
    if cls in ("Redirect",):
        media = None
    edits = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        edits.append([rng.choice(["set", "append", "del", "setdefault", "vary"]), gens.header_name(rng) + "-e", gens.header_value(rng)])
    return dict(cls=cls, content=content, status=status, headers=headers, media=media, edits=edits, via=rng.choice(["raw", "raw", "app", "wrapped"]), backend=gens.backend(rng))


def content_of(c):
    if c[0] == "none":
        return None
    if c[0] == "bytes":
        return mk(c[1])
    if c[0] == "memoryview":
        return memoryview(mk(c[1]))
    if c[0] == "url":
        return URL(c[1])
    if c[0] == "nonfinite":
        v = float(c[1])
        return [v, [1, v], {"a": {"b": v}}][c[2]]
    return c[1]


def same_json(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def run(case, mon):
    cls, content = case["cls"], content_of(case["content"])
    kwargs = {}
    if case["headers"] is not None:
        kwargs["headers"] = dict((k, v) for k, v in case["headers"])
    if case["media"] is not None:
        kwargs["media_type"] = case["media"]
    if case["content"][0] == "nonfinite":
        try:
            JSONResponse(content)
            mon.fail("nonfinite-accepted", f"JSONResponse({content!r}) produced a body instead of refusing a value JSON cannot represent")
        except ValueError:
            mon.n("non-finite numbers refused")
        mon.nontrivial("nonfinite")
        return

    def build():
        if cls == "Redirect":
            r = RedirectResponse(content, status_code=case["status"], **{k: v for k, v in kwargs.items() if k == "headers"})
        else:
            r = CLS[cls](content, status_code=case["status"], **kwargs)
        for op, n, v in case["edits"]:
            if op == "set":
                r.headers[n] = v
            elif op == "append":
                r.headers.append(n, v)
            elif op == "del":
                del r.headers[n]
            elif op == "setdefault":
                r.headers.setdefault(n, v)
            else:
                r.headers.add_vary_header(n)
        return r

    # ---- reference
    charset = CHARSET.get(cls, "utf-8")
    if cls == "Redirect":
        body = b""
    elif cls == "JSON":
        body = None
    elif content is None:
        body = b""
    elif isinstance(content, (bytes, memoryview)):
        body = bytes(content)
    else:
        body = content.encode(charset)
    want = [(k.lower(), v) for k, v in (case["headers"] or [])]
    names = [k for k, _ in want]

    path = "/r"
    if case["via"] == "raw":
        app = build()
    elif case["via"] == "app":
        async def endpoint(request):
            return build()

        app = Starlette(routes=[Route(path, endpoint)])
    else:
        def endpoint(request):  # sync endpoint
            return build()

        app = Starlette(routes=[Route(path, endpoint)])
    t = drive(app, http_scope(path=path), backend=case["backend"])
    if t.exc is not None:
        raise t.exc
    http_protocol(t, mon, check_length=not any(k == "content-length" for k in names))
    no_leaks(t, mon)
    mon.n("responses judged")
    mon.eq(t.status, case["status"], "status", "status")
    starts = [m for m in t.sent if m["type"] == "http.response.start"]
    mon.eq(len(starts), 1, "start-count", "number of start messages")
    if cls == "JSON":
        mon.n("json bodies")
        try:
            text = t.body.decode("utf-8")
            back = json.loads(text)
        except ValueError as exc:
            mon.fail("json-invalid", f"JSON body does not decode: {exc}: {t.body[:200]!r}")
            return
        mon.ok(same_json(back, content), "json-value", f"{content!r} came back as {back!r}")
        strings = re.sub(r'"(\\.|[^"\\])*"', '""', text)
        mon.ok(" " not in strings and "\n" not in strings, "json-compact", f"insignificant whitespace in {text[:200]!r}")
        mon.ok("\\u00e9" not in text.lower() and "\\u65e5" not in text.lower(), "json-ascii", f"non-ASCII text was escaped: {text[:200]!r}")
        body = t.body
    else:
        mon.eq(t.body, body, "body", "body")
    status = case["status"]
    if "content-length" not in names and not (status < 200 or status in (204, 304)):
        want.append(("content-length", str(len(body))))
    ctype = case["media"] if case["media"] is not None else DEFAULT_TYPE[cls]
    if ctype is not None and "content-type" not in names:
        if ctype.startswith("text/") and "charset=" not in ctype.lower():
            ctype += "; charset=" + charset
        want.append(("content-type", ctype))
    if cls == "Redirect":
        mon.n("redirects")
        loc = "".join(ch if ch in SAFE else "".join("%%%02X" % b for b in ch.encode("utf8")) for ch in str(content))
        want.append(("location", loc))
    for op, orig, v in case["edits"]:
        n = orig.lower()
        have = [i for i, (k, _) in enumerate(want) if k == n]
        if op == "set":
            if have:
                want[have[0]] = (n, v)
                for i in reversed(have[1:]):
                    del want[i]
            else:
                want.append((n, v))
        elif op == "append":
            want.append((n, v))
        elif op == "del":
            want = [(k, x) for k, x in want if k != n]
        elif op == "setdefault":
            if not have:
                want.append((n, v))
        else:
            vary = [i for i, (k, _) in enumerate(want) if k == "vary"]
            new = ", ".join([want[vary[0]][1], orig]) if vary else orig
            if vary:
                want[vary[0]] = ("vary", new)
                for i in reversed(vary[1:]):
                    del want[i]
            else:
                want.append(("vary", new))
    got = [(k.decode("latin-1"), v.decode("latin-1")) for k, v in t.headers]
    # relative order of headers with the same name and of caller-supplied ones is
    # significant; where generated defaults are inserted is not
    mon.eq(sorted(got), sorted(want), "headers", "headers sent")
    sup = [k for k, _ in (case["headers"] or []) ]
    order = [k.lower() for k in sup]
    edited = {n.lower() for _, n, _ in case["edits"]} | {"vary"}
    mon.eq([k for k, _ in got if k in order and k not in edited], [k for k in order if k in dict(got) and k not in edited], "header-order", "order of supplied headers")
    mon.nontrivial(cls, case["content"][0], status, bool(case["headers"]), case["via"], [e[0] for e in case["edits"]])

