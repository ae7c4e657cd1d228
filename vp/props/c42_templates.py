from __future__ import annotations

import os
import pathlib
import random
import warnings

import anyio
import jinja2

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.routing import Mount, Route
from starlette.templating import Jinja2Templates

from vp import gens
from vp.asgi import Jit, ServerSide, Trace, call_app, http_protocol, http_scope, no_leaks, run_async

ID = "C42"
PROP = dict(
    title="Template responses render the caller's context for the current request",
    statement=(
        "For every template, context, calling convention (positional, keyword, request first or in the context) and interleaving of requests, the response is the template rendered with exactly the caller's context, the current request and the context processors' values (in order, later ones winning), HTML-escaped by default, with the given status, headers, media type and background task. "
        "url_for in a template is the URL the same request would compute; the debug extension receives that template and context. Nothing of one request reaches another, even when both pass the same context object, which is never modified; a template outside the configured directories is never found."
    ),
    over=["inputs", "histories", "schedules", "configurations"],
    quant="every context value, shared or fresh context object, calling convention, processor list, directory list, and interleaving of requests",
    why="tests render one template once with one fresh context",
    files=["starlette/templating.py"],
    mechanism=[("arguments and context", "starlette/templating.py:Jinja2Templates.TemplateResponse"), ("response", "starlette/templating.py:_TemplateResponse"), ("url_for", "starlette/templating.py:Jinja2Templates._setup_env_defaults")],
)
TECH = "runtime monitoring: rendered bytes and messages compared with an independent rendering of the same page description, over concurrent and repeated requests with taint tokens"
RULE = "each case is a template set and up to 5 interleaved requests; non-trivial when renderings were compared"
LEVEL_NOTE = "held on the generated templates and requests"
BUDGET = {"quick": (30000, 8), "thorough": (300000, 90)}
REQUIRED = ("renderings compared", "shared contexts", "old style calls", "keyword calls", "processors", "url_for", "debug messages", "escaped", "unescaped environments", "not found", "background tasks", "contexts unmodified", "environment globals")

VALUES = ["plain", "<b>&'\"</b>", "é日本😀", "", "{{ 1 + 1 }}", "{% raw %}", "</script><script>", "a\nb", "&amp;", 12, 1.5, None, True]
ESC = str.maketrans({"&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&#39;", '"': "&#34;"})
STYLES = ["pos", "kw", "mixed", "old-pos", "old-kw", "full-pos", "full-old", "no-context", "none-context", "part-pos", "part-old"]


def fixed(tier):
    out = []
    i = 0
    for st in STYLES:
        for shared in (False, True):
            for procs in ([], [["p", 1]], [["p", 1], ["p", 2], ["title", 3]]):
                for env in ("dir", "dirs", "env", "env-noescape"):
                    i += 1
                    out.append(dict(reqs=[dict(style=st, title=j, status=200 + j, headers=[["x-a", "1"]] if j else None, media=[None, "text/plain"][j % 2], bg=j == 1, tpl="plain.html" if st.endswith("-context") else "index.html", ext=j == 0) for j in range(3)], shared=shared, procs=procs, env=env, mount=["", "/m"][i % 2], seed=i, jit=1 + i % 2, backend=["asyncio", "trio"][i % 2]))
    return out


def gen(rng, tier):
    reqs = [dict(style=rng.choice(STYLES), title=rng.randrange(len(VALUES)), status=rng.choice([200, 201, 404, 500]), headers=rng.choice([None, [["x-a", "1"], ["x-é".encode("ascii", "ignore").decode() + "b", "é"]]]), media=rng.choice([None, "text/plain", "application/xml"]), bg=rng.random() < 0.3, tpl=rng.choice(["index.html", "index.html", "child.html", "sub/deep.txt", "sub/page.j2", "mail.txt", "only2.html", "plain.html", "plain.html", "../secret.html", "nope.html", "/etc/hostname", "sub/../../secret.html"]), ext=rng.random() < 0.4) for _ in range(rng.randrange(1, 6))]
    return dict(reqs=reqs, globals=rng.sample(["p", "q", "title", "extra"], rng.choice([0, 0, 1, 2, 4])), shared=rng.random() < 0.5, procs=[[rng.choice(["p", "q", "title"]), rng.randrange(len(VALUES))] for _ in range(rng.choice([0, 0, 1, 2, 3]))], env=rng.choice(["dir", "dir", "dirs", "path", "env", "env-noescape"]), mount=rng.choice(["", "/m"]), seed=rng.randrange(10**6), jit=rng.choice([0, 1, 2, 3]), backend=gens.backend(rng))


PAGE = "[{{ title }}|{{ extra }}|{{ p }}|{{ q }}|{{ request.url.path }}|{{ request.headers['x-token'] }}|{{ url_for('item', id=title_id) }}|{% for x in items %}{{ x }},{% endfor %}]"


def worker_setup(mon):
    for d in ("t1/sub", "t2/sub"):
        os.makedirs(d, exist_ok=True)
    w = lambda p, s: pathlib.Path(p).write_text(s, encoding="utf8")  # noqa
    w("secret.html", "SECRET")
    w("t1/index.html", PAGE)
    w("t1/plain.html", "plain[{{ title }}|{{ p }}|{{ request.url.path }}|{{ request.headers['x-token'] }}]")
    w("t2/index.html", "WRONG DIRECTORY")
    w("t2/only2.html", "only2" + PAGE)
    w("t1/base.html", "<base>{% block b %}default{% endblock %}</base>")
    w("t1/child.html", "{% extends 'base.html' %}{% block b %}" + PAGE + "{% endblock %}")
    w("t1/sub/page.j2", PAGE)
    w("t1/mail.txt", PAGE)
    w("t1/sub/deep.txt", "deep{% include 'index.html' %}")


def run(case, mon):
    log = []
    d = os.getcwd()
    kw = {}
    procs = []
    for k, v in case["procs"]:

        def proc(request, k=k, v=v):
            return {k: f"{k}{v}{request.headers['x-token']}"}

        procs.append(proc)
    if case["procs"]:
        kw["context_processors"] = procs
        mon.n("processors")
    env = case["env"]
    escape = env != "env-noescape"
    if env == "dir":
        templates = Jinja2Templates(d + "/t1", **kw)
    elif env == "path":
        templates = Jinja2Templates(directory=pathlib.Path(d) / "t1", **kw)
    elif env == "dirs":
        templates = Jinja2Templates([d + "/t1", pathlib.Path(d + "/t2")], **kw)
    else:
        templates = Jinja2Templates(env=jinja2.Environment(loader=jinja2.FileSystemLoader([d + "/t1", d + "/t2"]), autoescape=escape), **kw)
        if not escape:
            mon.n("unescaped environments")
    glob = {}
    if case.get("globals"):
        # environment globals show only where neither the context nor a processor supplies the name
        mon.n("environment globals")
        glob = {k: f"G-{k}" for k in case["globals"]}
        templates.env.globals.update(glob)
    common = {"extra": "EX", "items": [1, "<2>"], "title_id": "s", "title": VALUES[case["seed"] % len(VALUES)]}
    kept = dict(common)

    async def item(request):
        pass

    async def page(request):
        n = int(request.headers["x-n"])
        r = case["reqs"][n]
        own = common if case["shared"] else dict(common, title=VALUES[r["title"] % len(VALUES)], title_id=f"id{n}")
        before = dict(own)
        args = dict(status_code=r["status"])
        if r["headers"] is not None:
            args["headers"] = dict(r["headers"])
        if r["media"]:
            args["media_type"] = r["media"]
        if r["bg"]:
            args["background"] = BackgroundTask(lambda: log.append(n))
        st, t = r["style"], r["tpl"]
        await anyio.sleep(0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if st == "pos":
                resp = templates.TemplateResponse(request, t, own, **args)
            elif st == "kw":
                resp = templates.TemplateResponse(request=request, name=t, context=own, **args)
            elif st == "mixed":
                resp = templates.TemplateResponse(request, name=t, context=own, **args)
            elif st == "full-pos":
                resp = templates.TemplateResponse(request, t, own, r["status"], args.get("headers"), r["media"], args.get("background"))
            elif st == "part-pos":
                # the first few by position, the others by keyword
                given = [own, r["status"], args.get("headers"), r["media"], args.get("background")][: 1 + n % 5]
                names = ["status_code", "headers", "media_type", "background"][len(given) - 1 :]
                resp = templates.TemplateResponse(request, t, *given, **{k: args[k] for k in names if k in args})
            elif st == "no-context":
                resp = templates.TemplateResponse(request, t, **args)
            elif st == "none-context":
                resp = templates.TemplateResponse(request, t, None, **args)
            else:
                old = dict(own, request=request)
                if st == "old-pos":
                    resp = templates.TemplateResponse(t, old, **args)
                elif st == "part-old":
                    given = [old, r["status"], args.get("headers"), r["media"], args.get("background")][: 1 + n % 5]
                    names = ["status_code", "headers", "media_type", "background"][len(given) - 1 :]
                    resp = templates.TemplateResponse(t, *given, **{k: args[k] for k in names if k in args})
                elif st == "old-kw":
                    resp = templates.TemplateResponse(name=t, context=old, **args)
                else:
                    resp = templates.TemplateResponse(t, old, r["status"], args.get("headers"), r["media"], args.get("background"))
                mon.n("old style calls")
        mon.n("contexts unmodified")
        if not st.startswith(("old", "full-old", "part-old")):
            mon.ok(own == before, "context-modified", f"TemplateResponse changed the caller's context from {before} to {own}")
        await anyio.sleep(0)
        return resp

    routes = [Route("/page", page), Route("/item/{id}", item, name="item")]
    app = Starlette(routes=[Mount(case["mount"], routes=routes)] if case["mount"] else routes)
    traces = []

    async def main():
        async def one(n, r):
            t = Trace()
            traces.append((n, r, t))
            hs = [("host", f"h{n}.org"), ("x-token", f"tok{n}q"), ("x-n", str(n))]
            await call_app(app, http_scope("GET", case["mount"] + "/page", hs, extensions={"http.response.debug": {}} if r["ext"] else None), ServerSide(t, jit=Jit(case["seed"] + n, case["jit"])), t)

        async with anyio.create_task_group() as tg:
            for n, r in enumerate(case["reqs"]):
                tg.start_soon(one, n, r)

    run_async(case["backend"], case["seed"], main)
    mon.eq(common, kept, "context-modified", "the shared context after the requests")
    if case["shared"]:
        mon.n("shared contexts")
    found = {"plain.html": "t1", "index.html": "t1", "child.html": "t1", "sub/deep.txt": "t1", "sub/page.j2": "t1", "mail.txt": "t1"}
    if env in ("dirs", "env", "env-noescape"):
        found["only2.html"] = "t2"
    esc = (lambda s: str(s).translate(ESC)) if escape else str
    bgs = []
    for n, r, t in traces:
        no_leaks(t, mon)
        if r["tpl"] not in found:
            mon.n("not found")
            mon.ok(isinstance(t.exc, jinja2.TemplateNotFound) and t.status == 500 and b"SECRET" not in t.body, "found-outside", f"{r['tpl']}: {t.status} {t.exc!r} {t.body[:100]!r}")
            continue
        if r["style"] in ("no-context", "none-context"):
            title, extra, tid = glob.get("title", ""), glob.get("extra", ""), ""
            items = []
        else:
            title = common["title"] if case["shared"] else VALUES[r["title"] % len(VALUES)]
            extra, items, tid = "EX", [1, "<2>"], ("s" if case["shared"] else f"id{n}")
        if not tid and r["tpl"] != "plain.html":
            # url_for with an undefined parameter is an error of the template's author
            if t.exc is not None or t.status != 200:
                tid = None
        tok = f"tok{n}q"
        vals = {"title": title, "p": glob.get("p", ""), "q": glob.get("q", "")}
        for k, v in case["procs"]:
            vals[k] = f"{k}{v}{tok}"
        if tid is None:
            mon.ok(isinstance(t.exc, (jinja2.TemplateError, Exception)) and not isinstance(t.exc, (AttributeError, TypeError)), "none-context", f"a call without a context failed with {t.exc!r}")
            continue
        if not mon.ok(t.exc is None, "exception", f"{r['style']}: {t.exc!r}"):
            continue
        url = f"http://h{n}.org{case['mount']}/item/{tid}"
        page = "[%s|%s|%s|%s|%s|%s|%s|%s]" % (esc(vals["title"]), esc(extra), esc(vals["p"]), esc(vals["q"]), case["mount"] + "/page", tok, url, "".join(esc(x) + "," for x in items))
        plain = "plain[%s|%s|%s|%s]" % (esc(vals["title"]), esc(vals["p"]), case["mount"] + "/page", tok)
        want = {"plain.html": plain, "index.html": page, "only2.html": "only2" + page, "child.html": "<base>" + page + "</base>", "sub/deep.txt": "deep" + page, "sub/page.j2": page, "mail.txt": page}[r["tpl"]]
        mon.n("renderings compared")
        mon.n("url_for")
        if escape and any(c in str(title) for c in "<>&'\""):
            mon.n("escaped")
        if r["style"] in ("kw", "old-kw"):
            mon.n("keyword calls")
        http_protocol(t, mon)
        mon.eq(t.body.decode("utf8"), want, "rendering", f"rendering ({r['style']})")
        mon.eq(t.status, r["status"], "status", f"status ({r['style']})")
        media = r["media"] or "text/html"
        mon.eq(t.header("content-type"), media + ("; charset=utf-8" if media.startswith("text/") else ""), "media-type", f"content type ({r['style']})")
        for k, v in r["headers"] or []:
            mon.eq(t.header_all(k), [v], "headers", f"header {k}")
        if r["bg"]:
            bgs.append(n)
        dbg = [m for m in t.sent if m["type"] == "http.response.debug"]
        mon.eq(len(dbg), 1 if r["ext"] else 0, "debug", "debug messages")
        for m in dbg:
            mon.n("debug messages")
            c = m["info"]["context"]
            mon.ok(m["info"]["template"].name == r["tpl"] and c["request"].headers["x-token"] == tok and str(c.get("title", glob.get("title", ""))) == str(vals["title"]), "debug", f"{m['info']['template']} {c}")
        mon.nontrivial(r["style"], r["tpl"], env, case["shared"], len(case["procs"]), r["status"])
    if bgs:
        mon.n("background tasks")
    mon.eq(sorted(log), sorted(bgs), "background", "background tasks run")
