from __future__ import annotations

import io
from urllib.parse import parse_qsl, quote, quote_plus, urlencode

from starlette.datastructures import FormData, Headers, ImmutableMultiDict, MultiDict, QueryParams, UploadFile
from starlette.requests import Request

from vp import gens
from vp.asgi import http_scope

ID = "C33"
PROP = dict(
    title="Query parameters, forms and multi-dicts keep every value and its order",
    statement=(
        "For every list of pairs, construction form and sequence of operations, MultiDict, ImmutableMultiDict, QueryParams and FormData hold exactly those pairs: multi_items() and getlist() give all of them in order, lookup, items, values, keys, iteration, in and len give one entry per key with its last value, "
        "and each mutation (item set, delete, append, setlist, setdefault, pop, popitem, poplist, update, clear) changes exactly the keys it names and keeps all views consistent. "
        "Parsing a query string gives exactly the decoded pairs that were encoded, blank values included, str() of the result encodes the same pairs again, request.query_params equals it, equality ignores order but not multiplicity, and copies never share changes."
    ),
    over=["inputs", "histories"],
    quant="every list of pairs (duplicate, empty, non-ASCII and special keys and values), construction form, operation sequence up to 20",
    why="tests call each method once on a three-pair list",
    files=["starlette/datastructures.py", "starlette/requests.py"],
    mechanism=[("ImmutableMultiDict / MultiDict", "starlette/datastructures.py"), ("QueryParams", "starlette/datastructures.py"), ("HTTPConnection.query_params", "starlette/requests.py")],
)
TECH = "runtime monitoring: reference model (list of pairs) run in lockstep, all views compared after every operation; encode/parse round trips"
RULE = "each case is a list of pairs with an operation sequence or a query string; non-trivial when views were compared"
LEVEL_NOTE = "held on the generated pairs and operation sequences"
BUDGET = {"quick": (400000, 8), "thorough": (4000000, 90)}
REQUIRED = ("operations", "round trips", "immutable refused", "missing keys", "independent copies", "equalities", "request query params", "equalities of unordered values", "duplicates seen", "blank values")

KEYS = ["a", "b", "c", "", "é", "a b", "A"]


def rkey(rng):
    return rng.choice(KEYS) if rng.random() < 0.85 else gens.text(rng, 0, 6, ctl=True)


def rval(rng):
    return rng.choice(["", "1", "2", "1", "é", "&", "=", "+", " ", "%", "%41", "a=b", "日", "😀", "\x00", "#", ";", gens.text(rng, 0, 8, ctl=True)])


def pairs(rng, hi=7):
    return [[rkey(rng), rval(rng)] for _ in range(rng.randrange(0, hi))]


MUT = [["set", "a", "9"], ["del", "a"], ["del", "zz"], ["append", "a", "9"], ["append", "n", "9"], ["setlist", "a", ["7", "8"]], ["setlist", "a", []], ["setlist", "zz", []], ["setlist", "n", ["1"]], ["setdefault", "a", "9"], ["setdefault", "n", "9"],
       ["pop", "a"], ["pop", "zz"], ["popd", "zz", "dd"], ["popd", "a", "dd"], ["popitem"], ["poplist", "a"], ["poplist", "zz"], ["clear"], ["update", [["a", "7"], ["a", "8"], ["n", "1"]], "list"], ["update", [["b", "1"]], "dict"], ["update", [["a", "1"], ["a", "2"]], "multi"], ["update", [["a", "k"]], "kw"], ["update", [["a", "1"]], "gen"], ["copy"]]


def fixed(tier):
    base = [["a", "1"], ["b", "2"], ["a", "3"], ["c", ""], ["a", "1"]]
    out = []
    for form in ("list", "tuples", "gen", "multi", "immutable", "dict", "kw", "list+kw", "dict+kw", "headers", "query", "form"):
        for op in MUT:
            for op2 in (["append", "a", "z"], ["set", "b", "z"], ["popitem"]):
                out.append(dict(kind="ops", form=form, init=base, ops=[op, op2]))
        out.append(dict(kind="ops", form=form, init=[], ops=MUT))
    for q in ("", "a", "a=", "=a", "=", "&", "a&&b", "a=1&a=2", "a=b=c", "a+b=c+d", "a%20b=%26", "%C3%A9=%F0%9F%98%80", "a;b=1", "a=1;b=2", "a=%", "a=%zz", "a%", "?a=1", "a=1#b", "&&a=1&", "a=%00", "a=%0A"):
        out.append(dict(kind="query", raw=q))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.25:
        return dict(kind="roundtrip", items=pairs(rng, 9), enc=rng.choice(["urlencode", "quote", "lower", "mixed"]), seed=rng.randrange(10**6))
    if r < 0.35:
        return dict(kind="eq", items=pairs(rng, 6), seed=rng.randrange(10**6), change=rng.choice([None, None, "value", "key", "dup", "drop"]))
    ops = []
    for _ in range(rng.randrange(1, 16)):
        op = list(rng.choice(MUT))
        if len(op) > 1 and isinstance(op[1], str) and rng.random() < 0.8:
            op[1] = rkey(rng)
        if op[0] in ("set", "append", "setdefault"):
            op[2] = rval(rng)
        if op[0] == "setlist":
            op[2] = [rval(rng) for _ in range(rng.randrange(0, 3))]
        if op[0] == "update":
            op[1] = pairs(rng, 4)
            if op[2] == "kw":
                op[1] = [[gens.lower(rng, 1, 2), rval(rng)] for _ in range(2)]
        if op[0] == "clear" and rng.random() < 0.7:
            continue
        ops.append(op)
    return dict(kind="ops", form=rng.choice(["list", "tuples", "gen", "multi", "immutable", "dict", "kw", "list+kw", "dict+kw", "headers", "query", "form"]), init=pairs(rng), ops=ops)


def last(items):
    d = {}
    for k, v in items:
        d[k] = v
    return d


def views(md, items, mon, what, str_keys=()):
    items = [tuple(x) for x in items]
    d = last(items)
    if len(d) < len(items):
        mon.n("duplicates seen")
    if any(v == "" for _, v in items):
        mon.n("blank values")
    checks = [
        ("multi_items()", list(md.multi_items()), items),
        ("len()", len(md), len(d)),
        ("set of keys()", sorted(md.keys()), sorted(d)),
        ("iteration", sorted(md), sorted(d)),
        ("dict(items())", dict(md.items()), d),
        ("number of items()", len(list(md.items())), len(d)),
        ("dict()", dict(md), d),
        ("values()", list(md.values()), [d[k] for k in md.keys()]),
    ]
    for k in list(d) + ["nope", "A", "x"]:
        vs = [v for a, v in items if a == k]
        checks.append((f"getlist({k!r})", md.getlist(k), vs))
        checks.append((f"{k!r} in", k in md, bool(vs)))
        checks.append((f"get({k!r})", md.get(k), vs[-1] if vs else None))
        checks.append((f"get({k!r}, default)", md.get(k, "dflt"), vs[-1] if vs else "dflt"))
        try:
            got = md[k]
        except KeyError:
            got = KeyError
            mon.n("missing keys")
        checks.append((f"[{k!r}]", got, vs[-1] if vs else KeyError))
    for view, got, want in checks:
        if got != want:
            mon.fail("view", f"{what}: {view} is {got!r}, the model requires {want!r} (pairs {items})")
            return False
    mon.events["oracle comparisons"] += len(checks)
    return True


def build(cls, form, init):
    t = [tuple(x) for x in init]
    lst = lambda: [tuple(x) for x in init]  # noqa
    if form == "list":
        return cls(lst()), t
    if form == "tuples":
        return cls(tuple(t)), t
    if form == "gen":
        return cls(x for x in t), t
    if form == "multi":
        return cls(MultiDict(lst())), t
    if form == "immutable":
        return cls(ImmutableMultiDict(lst())), t
    if form == "dict":
        return cls(dict(t)), list(dict(t).items())
    if form == "kw":
        return cls(**dict(t)), list(dict(t).items())
    if form == "list+kw":
        return cls(lst(), a="K", zz="Z"), t + [("a", "K"), ("zz", "Z")]
    if form == "dict+kw":
        return cls(dict(t), a="K"), list(dict(t).items()) + [("a", "K")]
    if form == "headers":
        h = Headers(raw=[(b"x-%d" % (len(k) % 3), v.encode("latin-1", "replace")) for k, v in t])
        return cls(h), h.items()
    if form == "query":
        q = QueryParams(lst())
        return cls(q), t
    if form == "form":
        return cls(FormData(lst())), t
    raise ValueError(form)


def run_ops(case, mon):
    for cls in (ImmutableMultiDict, QueryParams, FormData):
        obj, items = build(cls, case["form"], case["init"])
        if not views(obj, items, mon, f"{cls.__name__} ({case['form']}) of {case['init']}"):
            return
        for act in ("obj['a'] = 1", "del obj['a']", "obj.append('a', 1)", "obj.pop('a')", "obj.update({'a': 1})", "obj.clear()"):
            try:
                exec(act, {"obj": obj})
                mon.fail("immutable", f"{cls.__name__}: {act} succeeded")
            except (TypeError, AttributeError):
                mon.n("immutable refused")
        views(obj, items, mon, f"{cls.__name__} after refused mutations")
    src = [tuple(x) for x in case["init"]]
    md, items = build(MultiDict, case["form"], case["init"])
    model = [tuple(x) for x in items]
    for i, op in enumerate(case["ops"]):
        k = op[0]
        what = f"after {case['ops'][: i + 1]} on {case['init']} ({case['form']})"
        d = last(model)
        mon.n("operations")
        if k == "set":
            md[op[1]] = op[2]
            model = [x for x in model if x[0] != op[1]] + [(op[1], op[2])]
        elif k == "del":
            try:
                del md[op[1]]
                got = None
            except KeyError:
                got = KeyError
            mon.eq(got, None if op[1] in d else KeyError, "del", what)
            model = [x for x in model if x[0] != op[1]]
        elif k == "append":
            md.append(op[1], op[2])
            model = model + [(op[1], op[2])]
        elif k == "setlist":
            given = list(op[2])
            md.setlist(op[1], given)
            model = [x for x in model if x[0] != op[1]] + [(op[1], v) for v in op[2]]
            given.append("smuggled")
        elif k == "setdefault":
            got = md.setdefault(op[1], op[2])
            mon.eq(got, d.get(op[1], op[2]), "setdefault", what)
            if op[1] not in d:
                model = model + [(op[1], op[2])]
        elif k in ("pop", "popd"):
            got = md.pop(op[1], op[2]) if k == "popd" else md.pop(op[1], None)
            mon.eq(got, d.get(op[1], op[2] if k == "popd" else None), "pop", what)
            model = [x for x in model if x[0] != op[1]]
        elif k == "popitem":
            try:
                key, v = md.popitem()
                if not mon.ok(key in d and d[key] == v, "popitem", f"{what}: popitem() gave {(key, v)}"):
                    return
                model = [x for x in model if x[0] != key]
            except KeyError:
                mon.eq(len(d), 0, "popitem", what + ": KeyError although not empty")
        elif k == "poplist":
            got = md.poplist(op[1])
            mon.eq(got, [v for a, v in model if a == op[1]], "poplist", what)
            model = [x for x in model if x[0] != op[1]]
        elif k == "clear":
            md.clear()
            model = []
        elif k == "update":
            t = [tuple(x) for x in op[1]]
            if op[2] == "dict":
                md.update(dict(t))
                t = list(dict(t).items())
            elif op[2] == "multi":
                md.update(MultiDict(t))
            elif op[2] == "kw":
                md.update(**dict(t))
                t = list(dict(t).items())
            elif op[2] == "gen":
                md.update(x for x in t)
            else:
                md.update(t)
            keys = {a for a, _ in t}
            model = [x for x in model if x[0] not in keys] + t
        elif k == "copy":
            old = md
            md = MultiDict(old)
            frozen = ImmutableMultiDict(old)
            old.append("poked", "1")
            old["a"] = "poked"
            mon.n("independent copies")
            if not views(frozen, model, mon, what + " (immutable copy)"):
                return
            lst = md.multi_items()
            lst.append(("poked", "2"))
            md.getlist("a").append("poked")
        if not views(md, model, mon, what):
            return
    if case["form"] in ("multi", "immutable"):
        a = MultiDict(src)
        b = MultiDict(a)
        b.append("n", "1")
        a.clear()
        mon.n("independent copies")
        views(b, src + [("n", "1")], mon, "a copy after clearing the original")
    mon.nontrivial(case["form"], tuple(o[0] for o in case["ops"]), len(model))


def encode(items, how, seed):
    import random

    rng = random.Random(seed)
    out = []
    for k, v in items:
        if how == "urlencode":
            out.append(urlencode([(k, v)]))
            continue
        parts = []
        for x in (k, v):
            s = ""
            for ch in x:
                if ch.isalnum() and ch.isascii() and rng.random() < 0.8 or ch in "-_.~":
                    s += ch
                elif ch == " " and rng.random() < 0.5:
                    s += "+"
                else:
                    e = "".join("%%%02X" % b for b in ch.encode())
                    s += e.lower() if how == "lower" or (how == "mixed" and rng.random() < 0.5) else e
            parts.append(s)
        out.append(parts[0] + ("=" + parts[1] if parts[1] or rng.random() < 0.5 else ""))
    # "k" alone is a blank value; an empty key and value would vanish
    return [o if o else "=" for o in out]


def run_query(case, mon):
    if case["kind"] == "roundtrip":
        items = [tuple(x) for x in case["items"]]
        raw = "&".join(encode(items, case["enc"], case["seed"]))
    else:
        raw = case["raw"]
        items = parse_qsl(raw, keep_blank_values=True)
    for form, q in (("str", QueryParams(raw)), ("bytes", QueryParams(raw.encode("latin-1"))), ("request", Request(http_scope(query=raw)).query_params)):
        mon.n("round trips")
        if form == "request":
            mon.n("request query params")
        if not views(q, items, mon, f"QueryParams ({form}) of {raw!r}"):
            return
        back = parse_qsl(str(q), keep_blank_values=True)
        mon.eq(back, items, "query-str", f"pairs of str(QueryParams({raw!r})) = {str(q)!r}")
        again = QueryParams(str(q))
        views(again, items, mon, f"QueryParams(str(QueryParams({raw!r})))")
        mon.ok(again == q and not again != q, "query-eq", f"QueryParams({raw!r}) differs from its own round trip")
        mon.ok(str(q) in repr(q), "query-repr", repr(q))
    q = QueryParams([(k, v) for k, v in items])
    views(q, items, mon, "QueryParams(list)")
    nums = QueryParams([("n", 1), ("f", 1.5), (2, True), ("n", None)])
    views(nums, [("n", "1"), ("f", "1.5"), ("2", "True"), ("n", "None")], mon, "QueryParams of other types")
    mon.nontrivial(case["kind"], len(items), len(set(k for k, _ in items)))


def run_eq(case, mon):
    import random

    rng = random.Random(case["seed"])
    a = [tuple(x) for x in case["items"]]
    b = list(a)
    rng.shuffle(b)
    if case["change"] and b:
        i = rng.randrange(len(b))
        if case["change"] == "value":
            b[i] = (b[i][0], b[i][1] + "z")
        elif case["change"] == "key":
            b[i] = (b[i][0] + "z", b[i][1])
        elif case["change"] == "dup":
            b.append(b[i])
        else:
            b.pop(i)
    want = sorted(a) == sorted(b)
    for cls in (MultiDict, ImmutableMultiDict, QueryParams, FormData):
        mon.n("equalities")
        mon.eq(cls(a) == cls(b), want, "equality", f"{cls.__name__} equality of {a} and {b}")
        mon.eq(cls(a) != cls(b), not want, "equality", f"{cls.__name__} inequality of {a} and {b}")
        mon.eq(cls(a) == a, False, "equality-type", "equality with a list")
    f = UploadFile(io.BytesIO(b"x"), filename="f")
    fd = FormData(a + [("file", f)])
    views(fd, a + [("file", f)], mon, "FormData with a file")
    mon.eq(fd == FormData([("file", f)] + a), True, "equality", "FormData with a file")
    # values (and keys) that no order is defined for
    files = {}

    def other(k, v):
        n = len(k) + len(v)
        if case["seed"] % 3 == 0:
            return (k, files.setdefault(v, UploadFile(io.BytesIO(b"x"), filename=v)))
        if case["seed"] % 3 == 1:
            return (k, {"v": v} if n % 2 else v)
        return (k, None if v == "" else len(v) * 1j) if n % 2 else ((k,), v)

    for cls in (FormData, MultiDict, ImmutableMultiDict) if case["seed"] % 3 == 0 else (MultiDict, ImmutableMultiDict):
        oa, ob = ([other(k, v) for k, v in x] for x in (a, b))
        rest = list(ob)
        want = len(oa) == len(ob) and all(x in rest and not rest.remove(x) for x in oa)
        mon.n("equalities of unordered values")
        try:
            got = (cls(oa) == cls(ob), cls(oa) != cls(ob))
        except Exception as exc:
            mon.fail("equality", f"{cls.__name__} equality of {oa} and {ob} raised {exc!r}")
            continue
        mon.eq(got, (want, not want), "equality", f"{cls.__name__} equality of {oa} and {ob}")
    mon.nontrivial("eq", case["change"], len(a))


def run(case, mon):
    if case["kind"] == "ops":
        run_ops(case, mon)
    elif case["kind"] == "eq":
        run_eq(case, mon)
    else:
        run_query(case, mon)
