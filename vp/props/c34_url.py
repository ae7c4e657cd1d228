from __future__ import annotations

from urllib.parse import parse_qsl, quote, urlencode, urlsplit

from starlette.datastructures import URL, URLPath

from vp import gens

ID = "C34"
PROP = dict(
    title="Editing a URL changes the named component and nothing else",
    statement=(
        "For every URL built from components (with or without user, password, IPv4, IPv6 or named host, port, path, query, fragment), every component reads back as it was given, is_secure follows the scheme, and str() and equality (with URLs and strings) are those of its text. "
        "replace() with any set of components gives a new URL in which exactly these read back as given (None removing user, password or port) and every other reads as before; the original never changes. "
        "include_query_params, replace_query_params and remove_query_params give exactly the old parameters with the named ones set, replaced or removed, in order, every other value, duplicates and blanks included, unaltered; make_absolute_url joins scheme, host and path as documented."
    ),
    over=["inputs"],
    quant="every combination of components and of components to replace, and every query",
    why="tests edit two or three fixed URLs",
    files=["starlette/datastructures.py"],
    mechanism=[("URL", "starlette/datastructures.py:URL"), ("URL.replace / query helpers", "starlette/datastructures.py:URL"), ("URLPath.make_absolute_url", "starlette/datastructures.py:URLPath")],
)
TECH = "runtime monitoring: component-wise oracle (the components the URL was built from) checked after every operation on generated URLs"
RULE = "each case is one URL and up to four edits; non-trivial when components were compared after an edit"
LEVEL_NOTE = "held on the generated URLs and edits"
BUDGET = {"quick": (400000, 7), "thorough": (4000000, 80)}
REQUIRED = ("urls", "component edits", "query edits", "ipv6 hosts", "credentials", "absolute urls", "removed components", "values kept", "empty ports")

HOSTS = ["example.org", "localhost", "127.0.0.1", "[::1]", "[fe80::1:2]", "a.b-c.example", "x"]
SCHEMES = ["http", "https", "ws", "wss", "ftp"]


def rq(rng):
    items = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        items.append([rng.choice(["a", "b", "c", "q", "é", "a b", "x[]", ""]), rng.choice(["", "1", "2", "é", "a b", "&", "=", "+", "#", "?", "%", "/", gens.text(rng, 0, 6)])])
    return items


def path(rng):
    segs = [rng.choice(["", "a", "b.c", "%20", "%2F", "é", "a:b", "~u", "a@b", "+", "*", "..", ";p"]) for _ in range(rng.randrange(0, 4))]
    return "/" + "/".join(segs)


def comps(rng):
    user = rng.choice([None, None, None, "user", "u%40x", "a.b", "", "0"])
    return dict(
        scheme=rng.choice(SCHEMES),
        hostname=rng.choice(HOSTS),
        port=rng.choice([None, None, 80, 443, 8000, 1, 65535, "", 0]),
        username=user,
        password=rng.choice([None, "secret", "p%3Aw", "p@ss", "a:b", "", "0"]) if user is not None else None,
        path=rng.choice(["", "/", path(rng), path(rng)]),
        query=urlencode([tuple(x) for x in rq(rng)]),
        fragment=rng.choice(["", "", "frag", "a/b?c"]),
    )


def fixed(tier):
    out = []
    for host in HOSTS:
        for user, pw in ((None, None), ("u", None), ("u", "p"), ("u", "p@q:r"), ("u", ""), ("", "p"), ("", None), ("", "")):
            for port in (None, 8000, ""):
                base = dict(scheme="https", hostname=host, port=port, username=user, password=pw, path="/a", query="x=1&x=2&y=", fragment="f")
                edits = [dict(port=None), dict(port=1), dict(hostname="new.org"), dict(hostname="[::2]"), dict(username=None, password=None), dict(username="n"), dict(username="n", password="m"), dict(password="m"), dict(scheme="ws"), dict(path="/n"), dict(query=""), dict(fragment=""), dict(hostname="h", port=5), dict(port=None, username=None, password=None), dict(netloc="other:1")]
                for e in edits:
                    if e == dict(password="m") and user is None:
                        continue
                    out.append(dict(kind="edit", base=base, edits=[["replace", e]]))
                for q in (["include", {"x": "9"}], ["include", {"n": "1"}], ["include", {}], ["set", {"a": "1"}], ["set", {}], ["remove", "x"], ["remove", ["x", "y"]], ["remove", "nope"], ["remove", []]):
                    out.append(dict(kind="edit", base=base, edits=[q]))
    for proto in ("", "http", "websocket"):
        for scheme in ("http", "https", "ws", "wss"):
            for host in ("", "h.test", "h.test:80"):
                for root in ("", "/", "/r", "/r/"):
                    out.append(dict(kind="abs", proto=proto, base=f"{scheme}://b.test:8000{root}", host=host, path="/p/q"))
    return out


def gen(rng, tier):
    if rng.random() < 0.1:
        return dict(kind="abs", proto=rng.choice(["", "http", "websocket"]), base=f"{rng.choice(['http', 'https', 'ws', 'wss'])}://{rng.choice(HOSTS)}{rng.choice(['', ':8000'])}{path(rng) if rng.random() < 0.6 else ''}", host=rng.choice(["", rng.choice(HOSTS)]), path=path(rng))
    edits = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        if r < 0.55:
            new = comps(rng)
            keys = rng.sample(sorted(new), rng.randrange(1, 4))
            edits.append(["replace", {k: new[k] for k in keys}])
        elif r < 0.7:
            edits.append(["include", {rng.choice(["a", "b", "n", "é"]): rng.choice(["", "1", "a b", "&", "é", 5]) for _ in range(rng.randrange(0, 3))}])
        elif r < 0.8:
            edits.append(["set", {rng.choice(["a", "b", "n"]): rng.choice(["", "1", "a b", "&"]) for _ in range(rng.randrange(0, 3))}])
        else:
            edits.append(["remove", rng.choice(["a", "nope", ["a", "b"], [], ["a b", "é"]])])
    return dict(kind="edit", base=comps(rng), edits=edits)


def text(c):
    netloc = c["hostname"]
    if c["port"] is not None:
        netloc += f":{c['port']}"
    if c["username"] is not None:
        netloc = c["username"] + (f":{c['password']}" if c["password"] is not None else "") + "@" + netloc
    return f"{c['scheme']}://{netloc}{c['path']}" + (f"?{c['query']}" if c["query"] else "") + (f"#{c['fragment']}" if c["fragment"] else "")


def check(u, c, mon, what):
    mon.n("urls")
    for k, w in c.items():
        got = getattr(u, k)
        if k == "hostname":
            w = w.strip("[]").lower()
        if k == "port" and w == "":
            w = None  # "http://host:/"
        if got != w:
            mon.fail("component", f"{what}: {k} is {got!r}, must be {w!r} ({u!s})")
            return False
    mon.events["oracle comparisons"] += len(c)
    if c["hostname"].startswith("["):
        mon.n("ipv6 hosts")
    if c["username"] is not None:
        mon.n("credentials")
    netloc = text(dict(c, path="", query="", fragment="")).split("//", 1)[1]
    if c["port"] == "":
        mon.n("empty ports")
        mon.ok(u.netloc in (netloc, netloc[:-1]), "netloc", f"{what}: {u.netloc!r}")
    else:
        mon.eq(u.netloc, netloc, "netloc", what)
    mon.eq(u.is_secure, c["scheme"] in ("https", "wss"), "is-secure", what)
    # the text itself
    t = str(u)
    sp = urlsplit(t)
    mon.ok((sp.scheme, sp.netloc, sp.path, sp.query, sp.fragment) == (u.scheme, u.netloc, u.path, u.query, u.fragment), "text", f"{what}: {t}")
    mon.ok(u == t and u == URL(t) and not (u == t + "x") and not (u != t), "equality", f"{what}: {t}")
    mon.eq(tuple(u.components), (sp.scheme, sp.netloc, sp.path, sp.query, sp.fragment), "components", what)
    return True


def run_edit(case, mon):
    c = dict(case["base"])
    t = text(c)
    u = URL(t)
    if not check(u, c, mon, f"URL({t!r})"):
        return
    mon.eq(str(u), t, "str", "text of a URL")
    kw = {k: v for k, v in c.items() if v is not None}
    if c["port"] != "":
        check(URL(**kw), c, mon, f"URL(**{kw})")
    for e in case["edits"]:
        before, btext = dict(c), str(u)
        if e[0] == "replace":
            kw = dict(e[1])
            what = f"{btext} .replace(**{kw})"
            if "netloc" in kw:
                new = u.replace(**kw)
                mon.eq(new.netloc, kw["netloc"], "netloc", what)
                mon.eq((new.scheme, new.path, new.query, new.fragment), (u.scheme, u.path, u.query, u.fragment), "component", what)
                mon.n("component edits")
                continue
            user = kw.get("username", c["username"])
            pw = kw.get("password", c["password"])
            if user is None and pw is not None:
                # a password needs a user name: without one there is nothing to read back
                kw["password"] = None
                pw = None
            if kw.get("hostname", "x") is None:
                kw.pop("hostname")
            new = u.replace(**kw)
            c.update(kw)
            if c["path"] and not c["path"].startswith("/"):
                c["path"] = "/" + c["path"]
            mon.n("component edits")
            if any(v is None for v in kw.values()):
                mon.n("removed components")
        else:
            what = f"{btext} {e}"
            old = parse_qsl(c["query"], keep_blank_values=True)
            mon.n("query edits")
            if e[0] == "include":
                new = u.include_query_params(**e[1])
                want = [x for x in old if x[0] not in e[1]] + [(k, str(v)) for k, v in e[1].items()]
            elif e[0] == "set":
                new = u.replace_query_params(**e[1])
                want = [(k, str(v)) for k, v in e[1].items()]
            else:
                keys = [e[1]] if isinstance(e[1], str) else e[1]
                new = u.remove_query_params(tuple(keys) if len(keys) > 1 else e[1])
                want = [x for x in old if x[0] not in keys]
            mon.n("values kept", sum(1 for x in want if x in old))
            if not mon.eq(parse_qsl(new.query, keep_blank_values=True), want, "query-params", what):
                return
            c["query"] = new.query
        mon.ok(type(new) is URL, "type", what)
        if str(u) != btext:
            mon.fail("original-changed", f"{what}: the original is now {u!s}")
        check(u, before, mon, f"the original after {what}")
        if not check(new, c, mon, what):
            return
        u = new
    mon.nontrivial(tuple(e[0] for e in case["edits"]), tuple(sorted(k for k, v in c.items() if v)))


def run_abs(case, mon):
    p = URLPath(case["path"], protocol=case["proto"], host=case["host"])
    b = URL(case["base"])
    for base in (b, case["base"]):
        u = p.make_absolute_url(base)
        mon.n("absolute urls")
        scheme = b.scheme
        if case["proto"] == "http":
            scheme = "https" if b.is_secure else "http"
        elif case["proto"] == "websocket":
            scheme = "wss" if b.is_secure else "ws"
        want = f"{scheme}://{case['host'] or b.netloc}{b.path.rstrip('/')}{case['path']}"
        mon.eq(str(u), want, "absolute", f"URLPath({case['path']!r}, {case['proto']!r}, {case['host']!r}).make_absolute_url({case['base']!r})")
    mon.eq((str(p), p.protocol, p.host), (case["path"], case["proto"], case["host"]), "urlpath", "URLPath attributes")
    mon.nontrivial("abs", case["proto"], case["base"].split(":")[0], bool(case["host"]))


def run(case, mon):
    (run_abs if case["kind"] == "abs" else run_edit)(case, mon)
