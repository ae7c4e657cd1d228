from __future__ import annotations

import random
import struct
import uuid

from starlette.datastructures import URL
from starlette.routing import NoMatchFound

from vp import gens
from vp import routemodel as rm
from vp.asgi import drive, http_scope
from vp.props.c13_routing import drive_any
from vp.asgi import ws_scope

ID = "C14"
PROP = dict(
    title="URL reversing yields the URL that routes back to the named endpoint",
    statement=(
        "For every routing tree, name and parameter set, url_path_for() returns the path obtained by substituting the values into the first matching name - composed through named and unnamed mounts and hosts - with the protocol and "
        "host it was declared for, and a request for that path reaches that very endpoint with equal parameter values unless an earlier route also matches it. It raises NoMatchFound exactly when no route carries that "
        "name with exactly those parameters, and refuses values that could not be matched back (a slash or nothing for a string, negative, NaN or infinite numbers). make_absolute_url() combines the path with "
        "a base URL's scheme (ws for websockets), host and root path."
    ),
    over=["inputs", "programs"],
    quant="every routing tree, name, parameter values of every convertor type (values that look like placeholders included), base URL",
    why="tests reverse a few names with plain values",
    files=["starlette/routing.py", "starlette/convertors.py", "starlette/datastructures.py"],
    mechanism=[("url_path_for", "starlette/routing.py:Route/Mount/Host/Router.url_path_for"), ("replace_params", "starlette/routing.py:replace_params"), ("URLPath.make_absolute_url", "starlette/datastructures.py:URLPath"), ("convertors' to_string", "starlette/convertors.py")],
)
TECH = "runtime monitoring: reversed URLs compared with an independent model, then requested from the real application and followed to the endpoint that runs"
RULE = "each case is a routing tree and 20 reversals (valid, with missing or extra parameters, unknown names, invalid values); non-trivial when at least one reversal was compared"
LEVEL_NOTE = "held on the generated trees, names and values"
BUDGET = {"quick": (60000, 14), "thorough": (900000, 200)}
REQUIRED = ("reversed", "no match", "round trips", "invalid values refused", "absolute urls", "protocol", "hosts reversed")


def worker_setup(mon):
    rm.register_hex2()


def fixed(tier):
    R = lambda i, t, nm="n": ["route", i, t, None, "func", nm]  # noqa
    out = [
        dict(kind="explicit", tree=[["mount", "/{t}", "routes", [R(1, "/a", "a"), R(2, "/{x:int}", "b")], "m"], ["host", "{s}.org", "router", [R(3, "/c/{y}", "c")], "h"], R(4, "/{x}/{z}", "d")],
             calls=[["m:a", {"t": "x"}], ["m:a", {}], ["a", {"t": "x"}], ["m:b", {"t": "x", "x": 5}], ["m", {"t": "x", "path": "/q"}], ["m", {"path": "q"}], ["m", {"t": "x"}], ["m", {"t": "x", "path": "a", "z": "1"}],
                    ["h:c", {"s": "w", "y": "1"}], ["h:c", {"y": "1"}], ["h", {"s": "w", "path": "/zz"}], ["h", {"path": "/zz"}], ["h", {"s": "w"}], ["d", {"x": "{z}", "z": "{x}"}], ["d", {"x": "1"}], ["d", {"x": "1", "z": "2", "y": "3"}], ["zzz", {}], ["", {}], ["m:", {"t": "x"}], ["mxa", {"t": "x"}], ["m_a", {"t": "x"}], ["m::a", {"t": "x"}], ["ma", {"t": "x"}], ["h.c", {"s": "w", "y": "1"}], ["hxc", {"s": "w", "y": "1"}]]),
        dict(kind="explicit", tree=[["mount", "", "routes", [R(1, "/a", "a")], None], ["mount", "/x", "routes", [["mount", "/y", "routes", [R(2, "/b", "b"), R(3, "/", "i")], "in"]], "out"], ["mount", "/z", "routes", [R(4, "/b", "b"), R(5, "/b/{q}", "b")], None]],
             calls=[["a", {}], ["out:in:b", {}], ["out:in:i", {}], ["out:b", {}], ["in:b", {}], ["b", {}], ["b", {"q": "v"}], ["out:in", {"path": "f/g"}], ["out:in", {"path": ""}], ["out", {"path": "/f"}]]),
    ]
    for f in (0.0, 0.1, 1e-5, 1.5e-10, 123456789.123456789, 1e22, 1e300, 5e-324, 2.0**-60, 10.0, 100.0, 1e15, 1e16, 1e17, 3.0):
        out.append(dict(kind="float", v=f))
    return out


def gen(rng, tier):
    if rng.random() < 0.05:
        return dict(kind="float", v=abs(struct.unpack("d", rng.randbytes(8))[0]) if rng.random() < 0.5 else rng.random() * 10 ** rng.randrange(-30, 30))
    nm = ["n%d" % i for i in range(rng.choice([2, 6, 12]))]
    tree = rm.gen_tree(rng, rng.choice([0, 1, 2, 3]), name_pool=nm, literals=[x for x in rm.LITERALS if x[0] not in "%?#"] )
    return dict(kind="tree", tree=tree, seed=rng.randrange(10**6), base=rng.choice(["http://testserver", "https://example.org/", "https://example.org/root/", "http://h:8080/a/b", "https://h:8443", "http://[::1]:80/x/", "http://h/r//", "https://h/a//b//"]))


def value(rng, ty):
    """-> (value, its text, or None if it must be refused)"""
    if ty == "int":
        v = rng.choice([0, 1, 7, 10**30, rng.randrange(1000), -1, -rng.randrange(1, 99), "12", True])
        return v, str(int(v)) if int(v) >= 0 else None
    if ty == "float":
        v = rng.choice([0.5, 1.0, 10.0, 100.25, 0.1, 3.14159, rng.random(), rng.random() * 1e6, 7, -1.5, float("inf"), float("nan"), 1e-7, 1e21])
        return v, "float" if v == v and 0 <= v < float("inf") else None
    if ty == "uuid":
        v = uuid.UUID(int=rng.getrandbits(128))
        return v, str(v)
    if ty == "hex2":
        v = rng.randrange(256)
        return v, "%02x" % v
    if ty == "path":
        v = rng.choice(["", "x", "x/y", "a/b/c.txt", "{p1}", "/x", "é/日", "{path}", "a//b", 5, 12])
        return v, str(v)
    v = rng.choice(["x", "ab", "é", "x y", "a.b", "{p1}", "{p2}", "{path}", "{}", "%2F", "a?b", "\\1", "\\g<1>", "a/b", "", "日本", 5, 0])
    return v, None if v == "" or "/" in str(v) else str(v)


def names_of(nodes, prefix="", params=(), host=False):
    """every (name, [(param, type)]) that some leaf or mount answers to"""
    out = []
    for n in nodes:
        def ps(t):
            return [x for x in rm.tokens(t) if not isinstance(x, str)]

        if n[0] == "route":
            out.append((prefix + n[5], list(params) + ps(n[2])))
        elif n[0] == "ws":
            out.append((prefix + n[4], list(params) + ps(n[2])))
        elif n[0] == "app":
            if n[3]:
                out.append((prefix + n[3], list(params) + ps(n[2].rstrip("/")) + [("path", "path")]))
        else:
            nm = n[4]
            if nm:
                out.append((prefix + nm, list(params) + ps(n[1]) + [("path", "path")]))
            out += names_of(n[3], prefix + nm + ":" if nm else prefix, list(params) + ps(n[1]))
    return out


class Refused(Exception):
    pass


def subst(template, texts):
    out = ""
    for t in rm.tokens(template):
        if isinstance(t, str):
            out += t
        else:
            v = texts[t[0]]
            if v is None:
                raise Refused(t[0])
            out += v
    return out


def reverse(nodes, name, texts):
    """-> (path, protocol, host, leaf) or None; texts: param -> text (None = must be refused)"""
    have = set(texts)
    for n in nodes:
        ps = lambda t: {x[0] for x in rm.tokens(t) if not isinstance(x, str)}  # noqa
        if n[0] in ("route", "ws"):
            if name == (n[5] if n[0] == "route" else n[4]) and have == ps(n[2]):
                return subst(n[2], texts), "http" if n[0] == "route" else "websocket", "", n[1]
            continue
        tpl = n[2] if n[0] == "app" else n[1]
        nm = n[3] if n[0] == "app" else n[4]
        host = n[0] == "host"
        kids = [] if n[0] == "app" else n[3]
        mine = ps(tpl)
        if not mine <= have:
            continue
        if nm and name == nm and "path" in have:
            if have - mine == {"path"}:
                if host:
                    return texts["path"], "", subst(tpl, texts), None
                return subst(tpl.rstrip("/"), texts) + "/" + texts["path"].lstrip("/"), "", "", n[1] if n[0] == "app" else None
            continue
        if not nm or name.startswith(nm + ":"):
            rest = name[len(nm) + 1 :] if nm else name
            prefix = subst(tpl if host else tpl.rstrip("/"), texts)
            got = reverse(kids, rest, {k: v for k, v in texts.items() if k not in mine})
            if got:
                if host:
                    return got[0], got[1], prefix, got[3]
                return prefix.rstrip("/") + got[0], got[1], got[2], got[3]
    return None


def run(case, mon):
    log = []

    def record(leaf, scope):
        log.append((leaf, dict(scope.get("path_params", {}))))

    if case["kind"] == "float":
        v = case["v"]
        if v != v or v in (float("inf"),):
            return
        app = rm.build([["route", 1, "/{x:float}", None, "func", "n"]], record)
        p = app.url_path_for("n", x=v)
        drive(app, http_scope(path=p))
        mon.n("round trips")
        mon.ok(log and log[0][1]["x"] == v, "float-round-trip", f"{v!r} reversed to {p!r}, which routes to {log}")
        mon.nontrivial()
        return
    app = rm.build(case["tree"], record)
    tree = case["tree"]
    calls = []
    if case["kind"] == "explicit":
        calls = [(nm, kw, {k: None if isinstance(v, int) and v < 0 else str(v) for k, v in kw.items()}, {}) for nm, kw in case["calls"]]
    else:
        rng = random.Random(case["seed"])
        known = names_of(tree) or [("n1", [])]
        for _ in range(20):
            nm, ps = rng.choice(known)
            vals = {}
            for p, ty in ps:
                for _ in range(4):
                    vals[p] = (ty,) + value(rng, ty)
                    if p == "path" and vals[p][2] is not None:  # of a mount: text
                        vals[p] = (ty, str(vals[p][1]), vals[p][2])
                    if vals[p][2] is not None or rng.random() < 0.05:
                        break
            r = rng.random()
            if r < 0.12 and vals:
                vals.pop(rng.choice(list(vals)))
            elif r < 0.2:
                vals["extra"] = ("str", "1", "1")
            elif r < 0.28:
                nm = rng.choice([nm + "x", "x" + nm, nm + ":", ":" + nm, nm.split(":")[-1], nm.split(":")[0], "", "n1:n2"] + [nm.replace(":", c, 1) for c in ("x", "_", "::", "", ".", "/") if ":" in nm] * 2)
            elif r < 0.33:
                vals["path"] = ("path", "q", "q")
            calls.append((nm, {k: v[1] for k, v in vals.items()}, {k: v[2] for k, v in vals.items()}, {k: v[0] for k, v in vals.items()}))
    compared = []
    for nm, kw, texts, types in calls:
        refused = False
        try:
            # floats are compared by value, whatever their notation
            marks = {k: ("\x00" + k + "\x00" if t == "float" else t) for k, t in texts.items()}
            want = reverse(tree, nm, marks)
        except Refused:
            refused = True
            want = None
        try:
            got = app.url_path_for(nm, **kw)
        except NoMatchFound:
            got = None
        except (AssertionError, ValueError, TypeError) as exc:
            mon.n("invalid values refused")
            mon.ok(refused or want is None and None in texts.values(), "refused", f"url_path_for({nm!r}, {kw}) raised {exc!r}, the model says {want}")
            continue
        if refused:
            mon.ok(got is None, "accepted-invalid", f"url_path_for({nm!r}, {kw}) gave {got!r} for a value that cannot be matched back")
            continue
        compared.append((nm, want is None))
        if want is None:
            mon.n("no match")
            mon.ok(got is None, "no-match", f"url_path_for({nm!r}, {kw}) gave {got!r}; no route has this name with these parameters")
            continue
        if got is None:
            mon.fail("not-found", f"url_path_for({nm!r}, {kw}) raised NoMatchFound, the model says {want}")
            continue
        path, proto, host, leaf = want
        mon.n("reversed")
        if "\x00" in path or "\x00" in host:
            ok = equal_with_floats(path, str(got), kw) and equal_with_floats(host, got.host, kw)
            mon.ok(ok, "path", f"url_path_for({nm!r}, {kw}) gave {got!r} host {got.host!r}, expected {path!r} host {host!r}")
            if not ok:
                continue
        else:
            if not mon.eq(str(got), path, "path", f"url_path_for({nm!r}, {kw})"):
                continue
            mon.eq(got.host, host, "host", f"host of url_path_for({nm!r}, {kw})")
        if host:
            mon.n("hosts reversed")
        mon.n("protocol")
        mon.eq(got.protocol, proto, "protocol", f"protocol of url_path_for({nm!r}, {kw})")
        check_absolute(mon, got, case.get("base", "https://example.org/r/"))
        # follow it
        if leaf is None or not str(got).startswith("/") or not got.host.isascii():
            continue
        req = dict(type="websocket" if proto == "websocket" else "http", path=str(got), host=got.host or "nohost", method="GET")
        node = find(tree, leaf)
        if node[0] == "route" and rm.methods_of(node):
            req["method"] = sorted(rm.methods_of(node))[0]
        model = rm.resolve(tree, req)
        log.clear()
        hs = [("host", req["host"])]
        t = drive_any(app, ws_scope(req["path"], headers=hs) if req["type"] == "websocket" else http_scope(req["method"], req["path"], headers=hs), "asyncio")
        mon.n("round trips")
        if model.kind in ("leaf", "app"):
            mon.eq([x[0] for x in log], [model.leaf], "round-trip", f"endpoints reached by {req} reversed from {nm!r}")
            if model.leaf == leaf and log and not ambiguous(tree, leaf):
                for k, v in kw.items():
                    if k in log[0][1] and types.get(k) != "path":
                        mon.ok(log[0][1][k] == v or str(log[0][1][k]) == str(v), "round-trip-value", f"{k}={v!r} came back as {log[0][1][k]!r} through {got!r}")
        alone = rm.resolve(prune(tree, leaf), req)
        if alone.leaf != leaf and not ambiguous(tree, leaf):
            mon.fail("unroutable", f"url_path_for({nm!r}, {kw}) gave {got!r}, which that route does not match")
    if compared:
        mon.nontrivial(compared)


def find(nodes, leaf):
    for n in nodes:
        if n[0] in ("route", "ws", "app") and n[1] == leaf:
            return n
        if n[0] in ("mount", "host"):
            r = find(n[3], leaf)
            if r:
                return r
    return None


def prune(nodes, leaf):
    for n in nodes:
        if n[0] in ("route", "ws", "app"):
            if n[1] == leaf:
                return [n]
        elif find(n[3], leaf):
            return [[n[0], n[1], n[2], prune(n[3], leaf), n[4]]]
    return []


def ambiguous(nodes, leaf, seen=()):
    return hosts_above(nodes, leaf) > 1 or _ambiguous(nodes, leaf, seen)


def hosts_above(nodes, leaf):
    for n in nodes:
        if n[0] in ("mount", "host") and find(n[3], leaf):
            return (n[0] == "host") + hosts_above(n[3], leaf)
    return 0


def _ambiguous(nodes, leaf, seen=()):
    """Is a parameter's extent not determined by the separators around it?"""
    for n in nodes:
        if n[0] in ("route", "ws", "app"):
            if n[1] == leaf:
                return any(_amb(t) for t in seen + (n[2],))
        else:
            if find(n[3], leaf):
                return _ambiguous(n[3], leaf, seen + (n[1],))
    return True


def _amb(t):
    toks = rm.tokens(t)
    for i, x in enumerate(toks):
        if isinstance(x, str):
            continue
        before = toks[i - 1] if i else "/"
        after = toks[i + 1] if i + 1 < len(toks) else "/"
        if x[1] == "path" or not (isinstance(before, str) and before.endswith(("/",)) and isinstance(after, str) and after.startswith("/")):
            return True
    return False


def equal_with_floats(model, got, kw):
    parts = model.split("\x00")  # literal, name, literal, name, ..., literal

    def at(i, j):
        if j == len(parts):
            return i == len(got)
        if j % 2 == 0:
            return got.startswith(parts[j], i) and at(i + len(parts[j]), j + 1)
        return any(float(got[i:e]) == float(kw[parts[j]]) and at(e, j + 1) for e in rm.candidates("float", got, i))

    return at(0, 0)


def check_absolute(mon, up, base):
    from urllib.parse import urlsplit

    b = urlsplit(base)
    mon.n("absolute urls")
    secure = b.scheme in ("https", "wss")
    scheme = {"http": "https" if secure else "http", "websocket": "wss" if secure else "ws", "": b.scheme}[up.protocol]
    want = scheme + "://" + (up.host or b.netloc) + b.path.rstrip("/") + str(up)
    if not str(up).startswith("/") or not str(up).isascii() or any(c in str(up) for c in "?#%{}"):
        return
    for arg in (base, URL(base)):
        mon.eq(str(up.make_absolute_url(base_url=arg)), want, "absolute-url", f"make_absolute_url({base!r}) of {str(up)!r}")
