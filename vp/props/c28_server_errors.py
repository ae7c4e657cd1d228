from __future__ import annotations

import asyncio
import html.parser
import inspect
import linecache
import re
import traceback

from starlette.applications import Starlette
from starlette.middleware import Middleware
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks, ws_scope
from vp.props.c13_routing import drive_any

ID = "C28"
PROP = dict(
    title="Unhandled errors give one safe 500 response and reach the server",
    statement=(
        "For every unhandled exception - any type, message, chain, source location or locals, however hostile - from anywhere in an HTTP application before its response started, the client gets exactly one complete 500 response and the server then sees that same exception object; if the response had started nothing more is sent; cancellation and other non-Exception signals pass through without a response. "
        "Without debug the response is a fixed text or the registered handler's response and reveals nothing about the exception; "
        "with debug it is the traceback, as plain text or, if the client accepts HTML, as a page with every frame, its file, function, line number and source lines, in which exception type, message, file, function and source text appear only escaped. Other scopes are never answered."
    ),
    over=["inputs", "programs"],
    quant="every exception class name, message, chaining, traceback depth, code location, local variables with failing repr, Accept header, debug and handler setting, raising site",
    why="tests raise RuntimeError once per mode",
    files=["starlette/middleware/errors.py", "starlette/applications.py"],
    mechanism=[("ServerErrorMiddleware", "starlette/middleware/errors.py:ServerErrorMiddleware")],
)
TECH = "runtime monitoring: hostile exceptions with marker strings; error pages parsed by an independent HTML parser and scanned for live markers"
RULE = "each case is a hostile exception, a site and the debug/handler settings; non-trivial when the response and the propagated exception were checked"
LEVEL_NOTE = "held on the generated exceptions"
BUDGET = {"quick": (40000, 9), "thorough": (300000, 100)}
REQUIRED = ("requests", "debug html pages", "debug plain pages", "plain 500", "handlers", "after start", "other scopes", "non-exceptions", "markers escaped", "debug frames", "debug source lines")

MARK = "<script>vp(1)</script>"
MSGS = ["plain", MARK, "<vpx>", "é日本😀", "bad \udce9 path", "\x00\x1b[0m", "{x} {0} {styles}", "%s %(x)s", "a\nb\n<vpx a=b>c</vpx>", "&lt;", "'\"", "x" * 5000, "", "</pre></div></body>" + MARK, "SECRETVALUE"]
KINDS = ["plain", "chain", "context", "cycle", "group", "recursion", "strfails", "reprlocals", "noargs", "exec", "classname", "funcname", "sourceline", "spaced", "toplevel", "syntax", "unicode", "oserror", "notraceback", "deep", "lambda", "keyerror", "assert", "stopiter", "unpicklable", "handlerstate"]
ACCEPTS = [None, "text/html", "text/plain", "*/*", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8", "application/json", ""]
SITES = ["ep", "sync", "mount", "mw", "raw"]


def fixed(tier):
    out = []
    for k in KINDS:
        for debug in (False, True):
            for acc in (None, "text/html", "text/plain"):
                out.append(dict(kind=k, msg=MARK, debug=debug, handler=None, accept=acc, site="ep", started=None))
    for m in MSGS:
        for acc in ACCEPTS:
            for debug in (True, False):
                out.append(dict(kind="plain", msg=m, debug=debug, handler=None, accept=acc, site="mw", started=None))
    for site in SITES:
        for started in (None, "start", "part", "done"):
            for debug in (False, True):
                for handler in (None, "sync", "async"):
                    out.append(dict(kind="plain", msg="SECRETVALUE", debug=debug, handler=handler, accept="text/html", site=site, started=started))
    for b in ("cancel", "keyboard", "exit", "base", "generatorexit"):
        for debug in (False, True):
            out.append(dict(kind="B" + b, msg="x", debug=debug, handler="async", accept=None, site="raw", started=None))
    return out


def gen(rng, tier):
    msg = rng.choice(MSGS) if rng.random() < 0.5 else gens.text(rng, 0, 30, ctl=True) + rng.choice(["", MARK, "\udcff"])
    return dict(kind=rng.choice(KINDS), msg=msg, debug=rng.random() < 0.65, handler=rng.choice([None, None, "sync", "async"]), accept=rng.choice(ACCEPTS), site=rng.choice(SITES), started=rng.choice([None, None, None, "start", "part", "done"]))


class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags = []
        self.text = []
        self.attrs = []
        self.skip = 0

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        self.attrs += [(k, v) for k, v in attrs]
        if tag in ("script", "style"):
            self.skip += 1

    def handle_endtag(self, tag):
        if tag in ("script", "style"):
            self.skip -= 1

    def handle_data(self, data):
        if not self.skip:
            self.text.append(data)


class ReprFails:
    def __repr__(self):
        raise RuntimeError("repr failed")

    __str__ = __repr__


class StrFails(Exception):
    def __str__(self):
        raise RuntimeError("str failed")


def flat(s):
    return " ".join(s.replace("\xa0", " ").split())


def frames_shown(exc, shown, mon, what):
    """Every frame, innermost first, with its file, line, function and numbered source lines as they are in the file."""
    frames = [(f.f_code.co_filename, n, f.f_code.co_name) for f, n in traceback.walk_tb(exc.__traceback__)]
    # (what the exception passed after the page was made, and the line of the frame that made it, are not on it)
    frames = frames[max([i for i, f in enumerate(frames) if f[0] == inspect.getsourcefile(ServerErrorMiddleware)], default=-1) + 1 :][::-1]
    if len(frames) > 80:
        return
    pos, at = 0, []
    for fn, n, name in frames:
        m = re.compile(r"File\s+" + re.escape(fn) + r"\s*,\s+line\s+%d\s*,\s+in\s+" % n + re.escape(name) + r"(?=\W|$)").search(shown, pos)
        mon.ok(m, "debug-frames", f"{what}: no frame {fn}:{n} in {name} (in its place) on the page")
        if not m:
            return
        at.append(m.span())
        pos = m.end()
    mon.n("debug frames", len(frames))
    for i, (fn, n, name) in enumerate(frames):
        lines = linecache.getlines(fn)
        if not lines:
            continue
        chunk = shown[at[i][1] : at[i + 1][0] if i + 1 < len(at) else len(shown)]
        chunk = re.split(r"(?m)^\s*File\s", chunk)[0]
        rows = {int(a): b for a, b in re.findall(r"(?m)^\s*(\d+)\.[ \xa0](.*)$", chunk)}
        mon.n("debug source lines", len(rows))
        mon.ok(n in rows, "debug-source", f"{what}: line {n} of {fn} is not shown, but {rows}")
        for a, b in rows.items():
            src = lines[a - 1] if 0 < a <= len(lines) else None
            mon.ok(src is not None and flat(src) == flat(b), "debug-source", f"{what}: line {a} of {fn} is {src!r}, shown as {b!r}")


def raiser(kind, msg):
    def go():
        secret_local = "SECRETLOCAL"
        if kind == "plain":
            raise ValueError(msg)
        if kind == "chain":
            try:
                raise KeyError(msg)
            except KeyError as e:
                raise RuntimeError(msg) from e
        if kind == "context":
            try:
                raise KeyError(msg)
            except KeyError:
                raise RuntimeError(msg)
        if kind == "cycle":
            a, b = ValueError(msg), TypeError(msg)
            a.__cause__, b.__cause__ = b, a
            raise a
        if kind == "group":
            raise ExceptionGroup(msg or "g", [ValueError(msg), ExceptionGroup("n", [TypeError(msg)])])
        if kind == "recursion":
            def rec(n):
                return rec(n + 1)

            rec(0)
        if kind == "strfails":
            raise StrFails(msg)
        if kind == "reprlocals":
            bad = ReprFails()
            raise ValueError(bad)
        if kind == "noargs":
            raise ValueError
        if kind == "exec":
            exec(compile("def f():\n    raise ValueError(m)\nf()", f"/x/{MARK}.py", "exec"), {"m": msg})
        if kind == "classname":
            raise type(f"N{MARK}", (Exception,), {})(msg)
        if kind == "funcname":
            def inner():
                raise ValueError(msg)

            inner.__code__ = inner.__code__.replace(co_name=f"f{MARK}", co_qualname=f"q{MARK}")
            inner()
        if kind == "sourceline":
            src = f"def f(m):\n    x = '{MARK}'\n    raise ValueError(m)  # {MARK} &amp;\n"
            name = "/vp/hostile.py"
            linecache.cache[name] = (len(src), None, src.splitlines(True), name)
            ns = {}
            exec(compile(src, name, "exec"), ns)
            ns["f"](msg)
        if kind == "spaced":
            src = "# first\n\n\tdef = 1\n".replace("\tdef = 1", "a = 1 ;b =  '  &nbsp; &amp;nbsp ;'") + "def f(m):\n\tif m is not  None :\n\t\traise ValueError( m ) ;  c = ' ;' ; d = '{x} %s lt; amp'\n\n\n# end  é日\n"
            name = "/vp/spaced file.py"
            linecache.cache[name] = (len(src), None, src.splitlines(True), name)
            ns = {}
            exec(compile(src, name, "exec"), ns)
            ns["f"](msg)
        if kind == "toplevel":
            src = "raise ValueError(m)\n" + "# after\n" * (len(msg) % 9)
            name = f"/vp/top{len(msg) % 9}.py"
            linecache.cache[name] = (len(src), None, src.splitlines(True), name)
            exec(compile(src, name, "exec"), {"m": msg})
        if kind == "syntax":
            compile("a b " + MARK, f"<{MARK}>", "exec")
        if kind == "unicode":
            "\udc80".encode("utf-8")
        if kind == "oserror":
            open("/vp/no/such/" + MARK + "/file")
        if kind == "notraceback":
            raise ValueError(msg).with_traceback(None)
        if kind == "deep":
            def d(n):
                if n == 0:
                    raise ValueError(msg)
                d(n - 1)

            d(60)
        if kind == "lambda":
            (lambda: (_ for _ in ()).throw(ValueError(msg)))()
        if kind == "keyerror":
            {}[msg]
        if kind == "assert":
            assert False, msg
        if kind == "stopiter":
            raise LookupError(msg)
        if kind == "unpicklable":
            class E(Exception):
                def __reduce__(self):
                    raise TypeError

            raise E(msg, object())
        if kind == "handlerstate":
            e = ValueError(msg)
            e.add_note("note " + MARK)
            raise e
        b = {"Bcancel": asyncio.CancelledError, "Bkeyboard": KeyboardInterrupt, "Bexit": SystemExit, "Bbase": BaseException, "Bgeneratorexit": GeneratorExit}[kind]
        raise b("x")

    return go


def run(case, mon):
    go = raiser(case["kind"], case["msg"])
    seen = []
    raised = []

    def boom():
        try:
            go()
        except BaseException as e:
            raised.append(e)
            raise

    async def begin(send):
        if case["started"]:
            await send({"type": "http.response.start", "status": 202, "headers": []})
        if case["started"] in ("part", "done"):
            await send({"type": "http.response.body", "body": b"p", "more_body": case["started"] == "part"})

    class Resp:
        async def __call__(self, scope, receive, send):
            await begin(send)
            boom()

    async def ep(request):
        if case["started"]:
            return Resp()
        local_secret = "SECRETLOCAL"
        boom()

    def sync_ep(request):
        if case["started"]:
            return Resp()
        boom()

    async def raw(scope, receive, send):
        if scope["type"] == "http":
            await begin(send)
        boom()

    class Mw:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            await raw(scope, receive, send)

    def handler(request, exc):
        seen.append((request, exc))
        return PlainTextResponse("custom error page", status_code=500, headers={"x-custom": "1"})

    async def ahandler(request, exc):
        return handler(request, exc)

    h = {"sync": handler, "async": ahandler, None: None}[case["handler"]]
    site = case["site"]
    if site == "raw":
        app = ServerErrorMiddleware(raw, handler=h, debug=case["debug"])
    else:
        routes = [Route("/t", ep if site == "ep" else sync_ep), Mount("/m", app=raw)]
        app = Starlette(debug=case["debug"], routes=routes, middleware=[Middleware(Mw)] if site == "mw" else [], exception_handlers={Exception: h} if h else {})
    path = "/m/x" if site == "mount" else "/t"
    hs = [("host", "h")] + ([("accept", case["accept"])] if case["accept"] is not None else [])
    what = f"{case}"
    if case["kind"].startswith("B"):
        sent = []
        got = None

        async def send(m):
            sent.append(m)

        coro = app(http_scope("GET", path, hs), None, send)
        try:
            coro.send(None)
        except BaseException as e:
            got = e
        mon.n("non-exceptions")
        mon.ok(raised and got is raised[0], "signal-swallowed", f"{what}: {got!r}")
        mon.eq((sent, seen), ([], []), "signal-answered", what)
        mon.nontrivial(case["kind"], case["debug"])
        return
    t = drive(app, http_scope("GET", path, hs))
    mon.n("requests")
    if not raised:
        mon.fail("harness", f"{what}: nothing was raised")
        return
    exc = raised[0]
    mon.ok(t.exc is exc, "another-exception", f"{what}: raised {type(exc)}, the server saw {type(t.exc)}")
    no_leaks(t, mon)
    if case["started"]:
        mon.n("after start")
        mon.eq([m["type"] for m in t.sent], ["http.response.start"] + (["http.response.body"] if case["started"] != "start" else []), "sent-after-start", what)
    else:
        t2 = t
        exc0, t.exc = t.exc, None
        http_protocol(t, mon)
        t.exc = exc0
        mon.eq((t.status, sum(m["type"] == "http.response.start" for m in t.sent)), (500, 1), "status", what)
        if t.start is None:
            return
        if not case["debug"]:
            if h:
                mon.n("handlers")
                mon.eq((t.body, t.header("x-custom")), (b"custom error page", "1"), "handler-response", what)
            else:
                mon.n("plain 500")
                mon.eq(t.body, b"Internal Server Error", "default-body", what)
            for k, v in t.headers:
                mon.ok(b"SECRET" not in v, "header-reveals", f"{what}: {t.headers}")
        else:
            html_ok = "text/html" in (case["accept"] or "")
            ct = t.header("content-type") or ""
            text = t.body.decode("utf-8", "surrogatepass")
            if html_ok:
                mon.n("debug html pages")
                mon.ok(ct.startswith("text/html"), "debug-type", f"{what}: {ct}")
                if MARK in repr(case) or case["kind"] in ("exec", "classname", "funcname", "sourceline", "syntax", "oserror", "handlerstate"):
                    mon.n("markers escaped")
                mon.ok("<script>vp" not in text, "live-markup", f"{what}: ...{text[max(0, text.find('<script>vp') - 200): text.find('<script>vp') + 80]}...")
                page = Page()
                page.feed(text)
                mon.ok("vpx" not in page.tags, "live-markup", f"{what}: tags {page.tags}")
                mon.ok(page.tags.count("script") <= 1, "live-script", f"{what}: {page.tags.count('script')} script elements")
                shown = "".join(page.text)
                frames_shown(exc, shown, mon, what)
                mon.ok(type(exc).__name__.split("<")[0] in shown, "debug-shows-type", what)
                plain_msg = case["msg"]
                if case["kind"] in ("plain", "chain") and plain_msg.isprintable() and plain_msg.isascii():
                    mon.ok(plain_msg in shown, "debug-shows-message", f"{what}: {shown[:300]}")
            else:
                mon.n("debug plain pages")
                mon.ok(ct.startswith("text/plain"), "debug-type", f"{what}: {ct}")
                mon.ok("Traceback" in text or case["kind"] == "notraceback", "debug-traceback", f"{what}: {text[:200]}")
                last = "".join(traceback.format_exception_only(type(exc), exc)).strip().splitlines()
                if last and last[0].isascii():
                    mon.ok(last[0].split(":")[0] in text, "debug-shows-type", f"{what}")
    if h and not case["debug"]:
        mon.ok(len(seen) == 1 and seen[0][1] is exc and isinstance(seen[0][0], Request) or case["started"] and len(seen) <= 1, "handler-calls", f"{what}: {len(seen)} calls")
    # other scopes
    raised.clear()
    if site in ("raw", "mw"):
        for sc in (ws_scope("/t"), {"type": "lifespan", "asgi": {}}):
            t = drive_any(app, sc, "asyncio")
            mon.n("other scopes")
            mon.ok(t.sent == [] and t.exc is raised[-1], "other-scope-answered", f"{what}: {t.sent} {type(t.exc)}")
    mon.nontrivial(case["kind"], case["debug"], case["accept"], case["site"], case["started"], case["handler"])
