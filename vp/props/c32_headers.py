from __future__ import annotations

from starlette.datastructures import Headers, MutableHeaders
from starlette.requests import Request
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.websockets import WebSocket

from vp import gens
from vp.asgi import drive, http_scope, ws_scope

ID = "C32"
PROP = dict(
    title="Headers behave as an ordered, case-insensitive multi-dict",
    statement=(
        "For every header list and every sequence of operations, Headers and MutableHeaders give through every view (lookup in any case, get, getlist, in, keys, values, items, iteration, length, raw, equality) exactly the stored pairs, in order, names lower-cased, duplicates kept, every latin-1 value unchanged. "
        "Setting a header replaces its first occurrence in place and removes the others, deleting removes all of them, append adds one, setdefault never overwrites, update, | and |= set each header in turn, add_vary_header keeps what is there, and nothing else changes. "
        "Copies and the results of | are independent of the original, two header lists are equal exactly when they hold the same pairs in any order, and what is set on response.headers, and no more, is what is sent."
    ),
    over=["inputs", "histories"],
    quant="every initial list (duplicates, mixed case, empty and latin-1 values), construction form, and sequence of up to 20 operations",
    why="tests check each method once on a list of two or three headers",
    files=["starlette/datastructures.py", "starlette/responses.py", "starlette/requests.py"],
    mechanism=[("Headers / MutableHeaders", "starlette/datastructures.py"), ("Response.headers", "starlette/responses.py"), ("HTTPConnection.headers", "starlette/requests.py")],
)
TECH = "runtime monitoring: reference model (ordered list of pairs) run in lockstep with the real object, all views compared after every operation"
RULE = "each case is a header list and a sequence of operations; non-trivial when at least one operation was compared"
LEVEL_NOTE = "held on the generated lists and operation sequences"
BUDGET = {"quick": (400000, 8), "thorough": (4000000, 90)}
REQUIRED = ("operations", "replaced in place", "duplicates removed", "missing keys", "independent copies", "responses sent", "views compared", "type errors", "scope headers")

NAMES = ["x-a", "x-b", "x-c", "vary", "content-type", "etag"]


def rname(rng):
    return gens.cased(rng, rng.choice(NAMES)) if rng.random() < 0.9 else gens.header_name(rng)


def rvalue(rng):
    return rng.choice(["", "1", "2", "a, b", "é\xff", " x ", "Accept-Encoding", "*", gens.header_value(rng)])


def pairs(rng, hi=6):
    return [[rname(rng), rvalue(rng)] for _ in range(rng.randrange(0, hi))]


def fixed(tier):
    base = [["x-a", "1"], ["x-b", "2"], ["x-a", "3"], ["x-c", ""], ["x-a", "1"]]
    out = []
    for form in ("raw", "dict", "scope", "tuple-scope", "copy", "headers", "resp"):
        for op in (["set", "X-A", "n"], ["set", "x-new", "n"], ["del", "X-a"], ["del", "nope"], ["append", "X-A", "n"], ["setdefault", "X-A", "n"], ["setdefault", "New", "n"], ["update", [["X-A", "1"], ["Y", "2"]]], ["or", [["X-A", "é"]]], ["ior", [["x-b", "9"]]], ["vary", "Cookie"], ["or-bad"], ["ior-bad"]):
            out.append(dict(kind="ops", form=form, init=base, ops=[op, ["set", "x-b", "after"]], probe=["X-A", "x-b", "nope", "vary"]))
    return out


def gen(rng, tier):
    if rng.random() < 0.15:
        return dict(kind="eq", a=pairs(rng, 5), perm=rng.randrange(10**6), change=rng.choice([None, None, "value", "name", "dup", "drop"]))
    if rng.random() < 0.12:
        return dict(kind="response", cls=rng.choice(["Response", "Plain", "JSON", "Redirect", "Streaming"]), given=pairs(rng, 4), ops=gen_ops(rng, 6))
    return dict(kind="ops", form=rng.choice(["raw", "dict", "scope", "tuple-scope", "copy", "headers", "raw"]), init=pairs(rng, 7), ops=gen_ops(rng, 14), probe=[rname(rng) for _ in range(3)])


def gen_ops(rng, n):
    ops = []
    for _ in range(rng.randrange(1, n)):
        k = rng.choice(["set", "set", "del", "append", "append", "setdefault", "update", "or", "ior", "vary", "copy", "pokecopy", "or-bad"])
        if k in ("set", "append", "setdefault"):
            ops.append([k, rname(rng), rvalue(rng)])
        elif k in ("del",):
            ops.append([k, rname(rng)])
        elif k in ("update", "or", "ior"):
            ops.append([k, pairs(rng, 4)])
        elif k == "vary":
            ops.append([k, rng.choice(["Origin", "Cookie", "*"])])
        else:
            ops.append([k])
    return ops


def enc(p):
    return [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in p]


class Model:
    def __init__(self, items):
        self.items = [(k.lower(), v) for k, v in items]

    def set(self, k, v):
        k = k.lower()
        idx = [i for i, (a, _) in enumerate(self.items) if a == k]
        if idx:
            self.items = [(k, v) if i == idx[0] else kv for i, kv in enumerate(self.items) if i == idx[0] or kv[0] != k]
        else:
            self.items.append((k, v))
        return len(idx)

    def delete(self, k):
        self.items = [kv for kv in self.items if kv[0] != k.lower()]

    def getlist(self, k):
        return [v for a, v in self.items if a == k.lower()]


def views(h, items, mon, what, probes):
    mon.n("views compared")
    want = list(items)
    checks = [
        ("items()", list(h.items()), want),
        ("keys()", list(h.keys()), [k for k, _ in want]),
        ("values()", list(h.values()), [v for _, v in want]),
        ("iteration", list(h), [k for k, _ in want]),
        ("len()", len(h), len(want)),
        ("raw", [tuple(x) for x in h.raw], [(k.encode("latin-1"), v.encode("latin-1")) for k, v in want]),
    ]
    for p in probes:
        vs = [v for k, v in want if k == p.lower()]
        for name in {p, p.lower(), p.upper(), p.title()}:
            if name.lower() != p.lower():
                continue
            checks.append((f"getlist({name!r})", h.getlist(name), vs))
            checks.append((f"{name!r} in", name in h, bool(vs)))
            checks.append((f"get({name!r})", h.get(name), vs[0] if vs else None))
            checks.append((f"get({name!r}, default)", h.get(name, "dflt"), vs[0] if vs else "dflt"))
            try:
                got = h[name]
            except KeyError:
                got = KeyError
                mon.n("missing keys")
            checks.append((f"[{name!r}]", got, vs[0] if vs else KeyError))
    for view, got, w in checks:
        if got != w:
            mon.fail("view", f"{what}: {view} is {got!r}, the model requires {w!r} (pairs {want})")
            return False
    mon.events["oracle comparisons"] += len(checks)
    return True


def apply(h, m, op, mon, what):
    """-> the (possibly new) object"""
    k = op[0]
    mon.n("operations")
    if k == "set":
        h[op[1]] = op[2]
        n = m.set(op[1], op[2])
        mon.n("replaced in place", int(n > 0))
        mon.n("duplicates removed", int(n > 1))
    elif k == "del":
        del h[op[1]]
        m.delete(op[1])
    elif k == "append":
        h.append(op[1], op[2])
        m.items.append((op[1].lower(), op[2]))
    elif k == "setdefault":
        vs = m.getlist(op[1])
        got = h.setdefault(op[1], op[2])
        if not vs:
            m.items.append((op[1].lower(), op[2]))
        mon.eq(got, vs[0] if vs else op[2], "setdefault", what)
    elif k in ("update", "ior"):
        other = dict(op[1]) if len(op[1]) % 2 else Headers(raw=enc(op[1]))
        if k == "update":
            h.update(other)
        else:
            same = h
            h |= other
            mon.ok(h is same, "ior-identity", f"{what}: |= returned another object")
        for a, v in other.items():
            m.set(a, v)
    elif k == "or":
        before = list(m.items)
        new = h | dict(op[1])
        views(h, before, mon, what + " (left operand)", ["x-a"])
        new["x-independent"] = "1"
        views(h, before, mon, what + " (left operand, after editing the result)", ["x-a", "x-independent"])
        mon.n("independent copies")
        del new["x-independent"]
        m.items = list(before)
        for a, v in dict(op[1]).items():
            m.set(a, v)
        # 'x-independent' may have been there already
        if any(a == "x-independent" for a, _ in m.items):
            m.delete("x-independent")
        mon.ok(isinstance(new, MutableHeaders), "or-type", f"{what}: | gives {type(new)}")
        return new
    elif k == "vary":
        old = m.getlist("vary")
        h.add_vary_header(op[1])
        got = [x.strip() for v in h.getlist("vary") for x in v.split(",")]
        want = [x.strip() for v in old for x in v.split(",")] + [op[1]]
        mon.eq(got, want, "vary", f"{what}: values of Vary")
        rest = [kv for kv in h.items() if kv[0] != "vary"]
        mon.eq(rest, [kv for kv in m.items if kv[0] != "vary"], "vary-others", f"{what}: other headers")
        m.items = list(h.items())
    elif k == "copy":
        old = h
        h = h.mutablecopy()
        mon.ok(h is not old and isinstance(h, MutableHeaders), "copy", what)
        old_items = list(m.items)
        old["x-poked"] = "1"
        mon.n("independent copies")
        if not views(h, old_items, mon, what + " (copy, after editing the original)", ["x-poked", "x-a"]):
            return h
    elif k == "pokecopy":
        c = h.mutablecopy()
        c["x-a"] = "poked"
        del c["x-b"]
        c.append("x-c", "poked")
        mon.n("independent copies")
    elif k in ("or-bad", "ior-bad"):
        for bad in (None, 1, "x", [("a", "b")]):
            try:
                if k == "or-bad":
                    h | bad
                else:
                    h.__ior__(bad)
                mon.fail("bad-operand", f"{what}: | with {bad!r} did not raise TypeError")
            except TypeError:
                mon.n("type errors")
    return h


def build(form, init, mon):
    p = enc(init)
    if form == "raw":
        return MutableHeaders(raw=p), init
    if form == "dict":
        d = dict(init)
        return MutableHeaders(d), list(d.items())
    if form == "headers":
        return MutableHeaders(Headers(raw=p)), init
    if form == "copy":
        src = Headers(raw=p)
        return src.mutablecopy(), init
    if form == "resp":
        r = Response(headers=dict(init))
        d = list(r.headers.items())
        return r.headers, d
    scope = {"type": "http", "headers": tuple(p) if form == "tuple-scope" else p}
    h = MutableHeaders(scope=scope)
    mon.n("scope headers")
    return h, init


def run(case, mon):
    if case["kind"] == "ops":
        h, init = build(case["form"], case["init"], mon)
        m = Model(init)
        probes = case["probe"]
        if not views(h, m.items, mon, f"{case['form']} of {init}", probes):
            return
        for i, op in enumerate(case["ops"]):
            what = f"after {case['ops'][: i + 1]} on {init} ({case['form']})"
            h = apply(h, m, op, mon, what)
            if not views(h, m.items, mon, what, probes + [op[1]] if len(op) > 1 and isinstance(op[1], str) else probes):
                return
        mon.nontrivial(tuple(o[0] for o in case["ops"]), len(m.items))
        r = repr(h)
        mon.ok(r.startswith("MutableHeaders("), "repr", r)
        # the immutable class gives the same views and has no way to change
        frozen = Headers(raw=enc(m.items))
        views(frozen, m.items, mon, "Headers", probes)
        frozen.raw.append((b"x-smuggled", b"1"))
        views(frozen, m.items, mon, "Headers after editing the list .raw gave", probes)
        try:
            frozen["x-a"] = "1"  # type: ignore
            mon.fail("immutable", "an item of Headers could be set")
        except TypeError:
            pass
        # through a request and a websocket
        if all(k == k.lower() for k, _ in m.items):
            for conn in (Request(http_scope(headers=m.items)), WebSocket(ws_scope(headers=m.items), None, None)):
                views(conn.headers, m.items, mon, "headers of a connection", probes)
                mon.ok(conn.headers is conn.headers or list(conn.headers.items()) == m.items, "conn-headers")
    elif case["kind"] == "eq":
        import random

        rng = random.Random(case["perm"])
        a = [(k.lower(), v) for k, v in case["a"]]
        b = list(a)
        rng.shuffle(b)
        ch = case["change"]
        if ch and b:
            i = rng.randrange(len(b))
            if ch == "value":
                b[i] = (b[i][0], b[i][1] + "z")
            elif ch == "name":
                b[i] = (b[i][0] + "z", b[i][1])
            elif ch == "dup":
                b.append(b[i])
            else:
                b.pop(i)
        want = sorted(a) == sorted(b)
        for A in (Headers, MutableHeaders):
            for B in (Headers, MutableHeaders):
                mon.eq(A(raw=enc(a)) == B(raw=enc(b)), want, "equality", f"equality of {a} and {b}")
                mon.eq(A(raw=enc(a)) != B(raw=enc(b)), not want, "equality", f"inequality of {a} and {b}")
        mon.eq(Headers(raw=enc(a)) == a, False, "equality-type", "equality with a list")
        mon.n("operations")
        mon.nontrivial("eq", ch, len(a))
    else:
        mon.n("responses sent")
        given = dict(case["given"])
        cls = case["cls"]
        given = {k: v for k, v in given.items() if k.lower() not in ("content-length", "content-type", "location")} if cls == "Redirect" else given
        mk = {
            "Response": lambda: Response(b"body", headers=given),
            "Plain": lambda: PlainTextResponse("body", headers=given),
            "JSON": lambda: JSONResponse({}, headers=given),
            "Redirect": lambda: RedirectResponse("/x", headers=given),
            "Streaming": lambda: StreamingResponse(iter([b"a"]), headers=given),
        }[cls]
        r = mk()
        initial = list(r.headers.items())
        m = Model(initial)
        for i, op in enumerate(case["ops"]):
            if op[0] in ("copy", "or", "or-bad", "pokecopy"):
                continue
            apply(r.headers, m, op, mon, f"response headers after {case['ops'][: i + 1]}")
            views(r.headers, m.items, mon, "response.headers", ["x-a"])
        t = drive(r, http_scope())
        mon.eq([(k.decode("latin-1"), v.decode("latin-1")) for k, v in t.headers], m.items, "sent", f"headers sent by {cls}({given}) after {case['ops']}")
        other = mk()
        mon.eq(list(other.headers.items()), initial, "other-response", "headers of another response built the same way")
        mon.nontrivial("resp", cls, len(m.items))
