from __future__ import annotations

import copy
import inspect

import yaml

from starlette.applications import Starlette
from starlette.convertors import IntegerConvertor, StringConvertor, register_url_convertor
from starlette.endpoints import HTTPEndpoint
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import OpenAPIResponse, SchemaGenerator
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import drive, http_protocol, http_scope

ID = "C40"
PROP = dict(
    title="The generated schema lists exactly the documented routes of the application",
    statement=(
        "For every tree of routes, mounts and hosts, the schema holds one entry per path and method of each function, method or HTTPEndpoint route that is included in the schema and whose docstring carries YAML (after the last --- line if there is one), and nothing else: WebSocket routes, excluded routes, HEAD, undocumented endpoints and plain docstrings add nothing. "
        "Each entry is that endpoint's docstring parsed as YAML, under the full path with mount prefixes joined and convertors stripped. The served OpenAPI response is YAML that loads back to exactly that schema, generating it again or for another application gives the same answer, and the base schema is never modified."
    ),
    over=["programs", "configurations", "histories"],
    quant="every tree of routes, mounts and hosts, convertors, methods, docstring and base schema, and every sequence of generations",
    why="tests generate one schema for one fixed application",
    files=["starlette/schemas.py"],
    mechanism=[("enumeration", "starlette/schemas.py:BaseSchemaGenerator.get_endpoints"), ("docstrings", "starlette/schemas.py:BaseSchemaGenerator.parse_docstring"), ("assembly", "starlette/schemas.py:SchemaGenerator.get_schema")],
)
TECH = "runtime monitoring: generated applications whose schema is computed independently from their description and compared with the generated and served one, over repeated generations"
RULE = "each case is a route tree with documented and undocumented endpoints, generated several times; non-trivial when schemas were compared"
LEVEL_NOTE = "held on the generated applications; two routes with the same path and method, and docstrings that are not valid YAML, are left out"
BUDGET = {"quick": (40000, 7), "thorough": (400000, 60)}
REQUIRED = ("schemas compared", "documented endpoints", "undocumented", "excluded", "convertors stripped", "mount prefixes", "host routes", "class endpoints", "served", "regenerated", "preamble docstrings", "bound methods", "websocket routes")

DOCS = [
    (None, None),
    ("", None),
    ("Just a sentence.", None),
    ("A sentence.\n\nAnd another.", None),
    ("- a\n- b", None),
    ("42", None),
    ("\n    responses:\n      200:\n        description: A list.\n    ", {"responses": {200: {"description": "A list."}}}),
    ("summary: short", {"summary": "short"}),
    ("\n    A readable docstring first.\n    ---\n    responses:\n      200:\n        examples:\n          [{\"a\": 1}]\n    ", {"responses": {200: {"examples": [{"a": 1}]}}}),
    ("Text: with: colons\n---\nsummary: after", {"summary": "after"}),
    ("\n    Title\n    -----\n    Prose, with a rule.\n    ---\n    summary: last\n    ", {"summary": "last"}),
    ("a: 1\n---\nText.\n---\nb: 2", {"b": 2}),
    ("tags: [é, 日本, '😀']\ndeprecated: true\nx: null", {"tags": ["é", "日本", "😀"], "deprecated": True, "x": None}),
    ("a: {b: [1, 2.5, 'x: y', \"#\"]}", {"a": {"b": [1, 2.5, "x: y", "#"]}}),
    ("--- \ndescription: |\n  two\n  lines\n", {"description": "two\nlines\n"}),
    ("{}", None),
    ("date: 2001-01-01x", {"date": "2001-01-01x"}),
]
CONV = ["", "{x}", "{x:int}", "{x:float}", "{x:uuid}", "{x:path}", "a", "users", "a-{x}", "{x}.{y:int}", "{x:int}-{y:str}", "{x:c_int2}", "{x:Kind}", "{x:_k9}-{y:c_int2}"]
BASES = [{}, {"openapi": "3.0.0", "info": {"title": "T", "version": "1.0"}}, {"info": {}, "paths": {}}, {"paths": {"/extern": {"get": {"summary": "by hand"}}}}, {"paths": {"/p0": {"trace": {"summary": "kept"}}}, "components": {"a": [1]}}]

for _name, _conv in (("c_int2", IntegerConvertor()), ("Kind", StringConvertor()), ("_k9", StringConvertor())):
    register_url_convertor(_name, _conv)


def fixed(tier):
    out = []
    for d in range(len(DOCS)):
        for kind in ("func", "sync", "class", "method", "ws", "excluded"):
            for base in range(len(BASES)):
                out.append(dict(tree=[dict(k="route", kind=kind, path=0, doc=d, methods=["GET", "POST"], conv="{x:int}")], base=base, seed=d, other=[]))
    for c in CONV:
        out.append(dict(tree=[dict(k="mount", conv=c, kids=[dict(k="mount", conv="{z:int}", kids=[dict(k="route", kind="func", path=1, doc=6, methods=["GET"], conv=c)])])], base=1, seed=0, other=[]))
        out.append(dict(tree=[dict(k="host", conv=c, kids=[dict(k="mount", conv="m", kids=[dict(k="route", kind="class", path=1, doc=6, methods=["GET", "PUT"], conv=c)])])], base=3, seed=0, other=[dict(k="route", kind="func", path=7, doc=7, methods=["GET"], conv="")]))
    return out


def tree(rng, depth, counter):
    out = []
    for _ in range(rng.randrange(1, 5)):
        counter[0] += 1
        r = rng.random()
        if r < 0.3 and depth < 3:
            out.append(dict(k=rng.choice(["mount", "mount", "mount-app", "mount-starlette", "host"]), conv=rng.choice(CONV), kids=tree(rng, depth + 1, counter)))
        else:
            out.append(dict(k="route", kind=rng.choice(["func", "func", "sync", "class", "class", "method", "ws", "excluded", "static", "plainclass"]), path=counter[0], doc=rng.randrange(len(DOCS)), methods=rng.sample(["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"], rng.randrange(1, 4)), conv=rng.choice(CONV)))
    return out


def gen(rng, tier):
    return dict(tree=tree(rng, 0, [0]), base=rng.randrange(len(BASES)), seed=rng.randrange(100), other=tree(rng, 2, [500]) if rng.random() < 0.5 else [])


def strip(path):
    out, depth = "", 0
    i = 0
    while i < len(path):
        if path[i] == "{":
            j = path.index("}", i)
            out += "{" + path[i + 1 : j].split(":")[0] + "}"
            i = j + 1
        else:
            out += path[i]
            i += 1
    return out


def build(nodes, prefix, want, mon, names):
    routes = []
    for n in nodes:
        if n["k"] != "route":
            p = "/m%d%s" % (len(names), ("/" + n["conv"].replace("x", "m%d" % len(names)).replace("y", "n%d" % len(names)).replace("z", "o%d" % len(names))) if n["conv"] else "")
            names.append(p)
            if n["k"] == "host":
                mon.n("host routes")
                kids = build(n["kids"], prefix, want, mon, names)
                routes.append(Host("{sub}.example.org" if "{" in n["conv"] else "example.org", Router(routes=kids)))
                continue
            mon.n("mount prefixes")
            kids = build(n["kids"], prefix + p, want, mon, names)
            if n["k"] == "mount":
                routes.append(Mount(p, routes=kids))
            elif n["k"] == "mount-app":
                routes.append(Mount(p + "/", app=Router(routes=kids)))
            else:
                routes.append(Mount(p, app=Starlette(routes=kids)))
            continue
        path = "/p%d" % n["path"] + ("/" + n["conv"] if n["conv"] else "")
        doc, parsed = DOCS[n["doc"]]
        kind = n["kind"]
        full = strip(prefix + path)
        if full != prefix + path:
            mon.n("convertors stripped")

        def note(method, parsed=parsed):
            if parsed is None:
                mon.n("undocumented")
            else:
                mon.n("documented endpoints")
                want.setdefault(full, {})[method.lower()] = parsed

        if doc and "---" in doc:
            mon.n("preamble docstrings")
        if kind in ("func", "excluded"):

            async def f(request):
                return PlainTextResponse("x")

            f.__doc__ = doc
            routes.append(Route(path, f, methods=n["methods"], include_in_schema=kind != "excluded"))
            if kind == "func":
                for m in n["methods"]:
                    note(m)
            else:
                mon.n("excluded")
        elif kind == "sync":

            def f(request):
                return PlainTextResponse("x")

            f.__doc__ = doc
            routes.append(Route(path, f))
            note("GET")
        elif kind == "method":

            class Views:
                async def view(self, request):
                    return PlainTextResponse("x")

            Views.view.__doc__ = doc
            mon.n("bound methods")
            routes.append(Route(path, Views().view, methods=n["methods"]))
            for m in n["methods"]:
                note(m)
        elif kind in ("class", "plainclass"):
            mon.n("class endpoints")
            ns = {"__doc__": "summary: of the class"}
            for i, m in enumerate(n["methods"]):

                async def g(self, request):
                    return PlainTextResponse("x")

                d, p = DOCS[(n["doc"] + i) % len(DOCS)]
                g.__doc__ = d
                ns[m.lower()] = g
                note(m, p)

            async def helper(self):
                "summary: not an endpoint"

            ns["helper"] = helper
            ns["trace_"] = helper
            routes.append(Route(path, type("E", (HTTPEndpoint,), ns)))
        elif kind == "ws":

            async def w(websocket):
                pass

            mon.n("websocket routes")
            w.__doc__ = doc
            routes.append(WebSocketRoute(path, w))
        else:

            async def asgi(scope, receive, send):
                await Response()(scope, receive, send)

            asgi.__doc__ = doc
            routes.append(Mount(path, app=asgi))
    return routes


def run(case, mon):
    base = copy.deepcopy(BASES[case["base"]])
    gen_ = SchemaGenerator(base)
    apps = []
    for nodes in (case["tree"], case["other"]):
        want = {}
        names = []
        routes = build(nodes, "", want, mon, names)

        def schema(request):
            return gen_.OpenAPIResponse(request=request)

        routes.append(Route("/schema", schema, include_in_schema=False))
        full = copy.deepcopy(BASES[case["base"]])
        paths = full.setdefault("paths", {})
        for p, ms in want.items():
            paths.setdefault(p, {}).update(copy.deepcopy(ms))
        apps.append((Starlette(routes=routes), full))
    for step, (app, full) in enumerate([apps[0], apps[0], apps[1], apps[0]]):
        if step:
            mon.n("regenerated")
        got = gen_.get_schema(app.routes)
        mon.n("schemas compared")
        mon.eq(got, full, "schema" if step == 0 else "schema-again", f"schema (generation {step})")
        if step % 2 == 0:
            t = drive(app, http_scope("GET", "/schema"))
            http_protocol(t, mon)
            mon.n("served")
            mon.eq((t.status, (t.header("content-type") or "").split(";")[0]), (200, "application/vnd.oai.openapi"), "served", "status and type")
            mon.eq(yaml.safe_load(t.body.decode("utf8")), full, "served-schema", "served schema")
        mon.eq(base, BASES[case["base"]], "base-modified", "base schema after generation")
        # what the caller does with one schema must not show in the next
    mon.nontrivial(sorted(apps[0][1]["paths"])[:6], case["base"])
