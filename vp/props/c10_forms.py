from __future__ import annotations

import urllib.parse

from starlette.applications import Starlette
from starlette.datastructures import FormData, UploadFile
from starlette.middleware import Middleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from vp import gens, tracking
from vp.asgi import chunking, drive, http_scope, no_leaks, split_body
from vp.engine import mk

ID = "C10"
PROP = dict(
    title="Form bodies parse to exactly what was submitted, under any delivery",
    statement=(
        "For every multipart or URL-encoded submission within the limits and every division of its bytes into messages, form() yields exactly the submitted items in order, duplicates included: "
        "text fields decoded in the declared charset (UTF-8 by default, Latin-1 when that is impossible or the charset is unknown), and files as open uploads with exactly the submitted name, content type, headers, size and "
        "content, positioned at the start, also when they are too large to be kept in memory. form() again returns the same items, it works after body(), a body that is not a form gives an empty form and stays "
        "readable, and leaving `async with request.form()` (or closing the form) closes every file and changes no item."
    ),
    over=["inputs", "schedules"],
    quant="every item list, name, value, file content (incl. near-boundary content, sizes around the spool limit), boundary, charset, percent-encoding, message division",
    why="tests send a handful of small forms in one or two messages; parser state straddling message boundaries is only reachable by varying the division",
    files=["starlette/formparsers.py", "starlette/requests.py", "starlette/datastructures.py"],
    mechanism=[("MultiPartParser callbacks", "starlette/formparsers.py:MultiPartParser"), ("FormParser", "starlette/formparsers.py:FormParser"), ("Request.form", "starlette/requests.py:Request._get_form")],
)
TECH = "runtime monitoring: differential oracle (the submitted items against the parsed ones) with open-file tracking under randomised message division"
RULE = "each case is an item list encoded by the workload, a message division and an access pattern; non-trivial when the parsed items were compared"
LEVEL_NOTE = "held on the generated submissions and divisions"
BUDGET = {"quick": (60000, 14), "thorough": (900000, 240)}
REQUIRED = ("multipart forms", "urlencoded forms", "files compared", "rolled files", "fields compared", "non-forms", "closed forms", "charset fallbacks")

NAMECH = "abcXYZ019 _-.;,:=&+[]()<>{}@#!$%^*~|/?é日ß"
BOUNDARIES = ["X", "boundary", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "a'b(c)d+e_f,g-h.i/j:k=l?m", "--", "0" * 70, "-", "aXbX", "a a"]


def fixed(tier):
    out = []
    items = [["f", "a", "1"], ["F", "up", "x.txt", "text/plain", [["x-a", "1"]], "hello\r\n--X"], ["f", "a", ""], ["F", "up", "", None, [], ""], ["f", "", "x"]]
    for ch in ("one", "bytes", "empties"):
        for acc in ("form", "twice", "body-first", "with", "close", "after-stream-none"):
            out.append(dict(kind="mp", items=items, boundary="X", charset=None, sizes=None, chunk=ch, access=acc, seed=0, backend="asyncio", ct=0, epi="\r\n", via="app"))
    for n in (1048575, 1048576, 1048577, 1500000):
        out.append(dict(kind="mp", items=[["F", "up", "big", "a/b", [], ["rnd", 1, n]], ["f", "z", "y"]], boundary="bound", charset=None, sizes=None, chunk="blocks", access="close", seed=n, backend="asyncio", ct=0, epi="", via="raw"))
        out.append(dict(kind="mp", items=[["F", "up", "big", "a/b", [], ["rep", "\r\n--bou", n]], ["F", "up", "b2", "a/b", [], "x"]], boundary="bound", charset=None, sizes=None, chunk="few", access="with", seed=n, backend="trio", ct=1, epi="", via="raw"))
    for q in ("a=1&b=2&a=3", "a&b", "a=", "=x", "&&a=1&&", "a=b=c", "a+b=c+d", "%zz=1%", "", "="):
        for ch in ("one", "bytes"):
            out.append(dict(kind="raw-ue", q=q, chunk=ch, access="form", seed=0, backend="asyncio", ct=0, via="app"))
    for ct in (None, "application/json", "text/plain; charset=utf-8", "multipart/mixed; boundary=X", "application/x-www-form", ""):
        out.append(dict(kind="non", ctype=ct, body="a=1&b=2", chunk="few", access="form", seed=0, backend="asyncio", via="app"))
    return out


def name(rng):
    return "".join(rng.choice(NAMECH) for _ in range(rng.choice([0, 1, 1, 3, 8, 20])))


def gen(rng, tier):
    r = rng.random()
    acc = rng.choice(["form", "twice", "body-first", "with", "close"])
    base = dict(chunk=rng.choice(["one", "few", "few", "few", "bytes", "blocks", "empties"]), access=acc, seed=rng.randrange(10**6), backend=gens.backend(rng), via=rng.choice(["app", "raw"]))
    if r < 0.1:
        return dict(base, kind="non", ctype=rng.choice([None, "application/json", "text/html", "multipart/mixed; boundary=a", "multipart/form-datax; boundary=a", "x/y"]), body=gens.text(rng, 0, 30, uni=False))
    if r < 0.35:
        items = [[gens.text(rng, 0, 8, ctl=True), gens.text(rng, 0, rng.choice([3, 40]), ctl=True)] for _ in range(rng.choice([0, 1, 2, 5, 30]))]
        return dict(base, kind="ue", items=items, enc=rng.choice(["plus", "quote", "all", "mixed"]), ct=rng.randrange(3))
    boundary = rng.choice(BOUNDARIES + [gens.token(rng, 1, 40)])
    items = []
    for _ in range(rng.choice([0, 1, 2, 3, 8])):
        nm = name(rng)
        s = rng.random()
        near = rng.choice(["\r\n--" + boundary[:-1], "\r\n--" + boundary[: len(boundary) // 2], "\r\n-", "\r", "\n", "--" + boundary, "\r\n\r\n", "\r\r\n", "-" * 5])
        if s < 0.5:
            val = rng.choice([gens.text(rng, 0, 20, ctl=True), near, near + gens.text(rng, 0, 4), "é日本" * 3, ["bytes", ["rnd", rng.randrange(9), rng.choice([1, 5, 300])]], "v" * rng.choice([1, 1000, 65536])])
            items.append(["f", nm, val])
        else:
            big = rng.random() < 0.02
            content = rng.choice([["cat", near, "x"], near, "", "\x00\xff\r\n", ["rnd", rng.randrange(99), rng.choice([0, 1, 10, 1000, 70000])], ["rep", near, rng.choice([10, 500, 5000])]])
            if big:
                content = ["rnd", 3, rng.choice([1048576, 1048577, 1100000])]
            hs = [[rng.choice(["x-a", "X-Custom", "Content-Language"]), gens.header_value(rng, latin=False)] for _ in range(rng.choice([0, 0, 1, 2]))]
            items.append(["F", nm, name(rng).replace("/", "_"), rng.choice([None, "text/plain", "image/png; a=b", "application/octet-stream"]), [h for h in hs if h[1]], content])
    return dict(base, kind="mp", items=items, boundary=boundary, charset=rng.choice([None, None, None, "utf-8", "UTF8", "latin-1", "iso-8859-15", "cp1252", "no-such-charset", "ascii"]), ct=rng.randrange(3), epi=rng.choice(["", "\r\n"]))


def _enc(rng, s, how):
    if how == "plus":
        return urllib.parse.quote_plus(s)
    if how == "quote":
        return urllib.parse.quote(s, safe="")
    if how == "all":
        return "".join("%%%02X" % b for b in s.encode())
    out = ""
    for ch in s:
        if ch.isalnum() and ch.isascii() and rng.random() < 0.6:
            out += ch
        elif ch == " " and rng.random() < 0.5:
            out += "+"
        else:
            out += "".join(rng.choice(["%%%02X", "%%%02x"]) % b for b in ch.encode())
    return out


def encode_multipart(case):
    """-> (content-type, body, expected items)"""
    cs = case["charset"]
    try:
        "".encode(cs or "utf-8")
        codec = cs or "utf-8"
    except LookupError:
        codec = None
    fallback = 0

    def expect(b):
        nonlocal fallback
        try:
            if codec:
                return b.decode(codec)
        except ValueError:
            pass
        fallback += 1
        return b.decode("latin-1")

    def tob(s):
        return s.encode(codec or "utf-8", "replace")

    out, want = b"", []
    bd = case["boundary"].encode("ascii")
    for it in case["items"]:
        # a part that contains the delimiter cannot be submitted with this boundary
        content = mk(it[5]) if it[0] == "F" else (mk(it[2][1]) if isinstance(it[2], list) else tob(it[2]))
        if b"\r\n--" + bd in b"\r\n" + content + b"\r\n":
            continue
        nm = tob(it[1])
        out += b"--" + bd + b"\r\n"
        disp = b'form-data; name="' + nm + b'"'
        if it[0] == "f":
            v = mk(it[2][1]) if isinstance(it[2], list) else tob(it[2])
            out += b"Content-Disposition: " + disp + b"\r\n\r\n" + v + b"\r\n"
            want.append((expect(nm), expect(v)))
        else:
            fn = tob(it[2])
            disp += b'; filename="' + fn + b'"'
            hs = [(b"content-disposition", disp)]
            if it[3]:
                hs.append((b"content-type", it[3].encode()))
            hs += [(k.lower().encode(), v.encode()) for k, v in it[4]]
            names = {b"content-disposition": b"Content-Disposition", b"content-type": b"Content-Type"}
            out += b"".join(names.get(k, k) + b": " + v + b"\r\n" for k, v in hs)
            data = mk(it[5])
            out += b"\r\n" + data + b"\r\n"
            want.append((expect(nm), (expect(fn), it[3], hs, data)))
    out += b"--" + bd + b"--" + case["epi"].encode()
    ct = ["multipart/form-data; boundary=%s", "Multipart/Form-Data; Boundary=%s", "multipart/form-data;boundary=%s"][case["ct"]]
    needs_quote = any(c in " '(),/:=?" for c in case["boundary"])
    ct = ct % ('"%s"' % case["boundary"] if needs_quote or case["seed"] % 3 == 0 else case["boundary"])
    if cs:
        ct += "; charset=" + cs
    return ct, out, want, fallback


def run(case, mon):
    import random

    rng = random.Random(case["seed"])
    kind = case["kind"]
    fallback = 0
    if kind == "mp":
        ct, body, want, fallback = encode_multipart(case)
    elif kind == "ue":
        body = "&".join(_enc(rng, k, case["enc"]) + "=" + _enc(rng, v, case["enc"]) for k, v in case["items"]).encode("ascii")
        want = [(k, v) for k, v in case["items"]]
        ct = ["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-URLEncoded"][case["ct"]]
    elif kind == "raw-ue":
        body = case["q"].encode()
        want = urllib.parse.parse_qsl(case["q"], keep_blank_values=True)
        if case["q"] == "=":
            want = [("", "")]
        ct = "application/x-www-form-urlencoded"
    else:
        body, want, ct = case["body"].encode(), [], case["ctype"]
    msgs = split_body(body, chunking(rng, len(body), case["chunk"]), rng.random() < 0.3)
    res = {}
    tracking.reset()

    def snapshot(form):
        out = []
        for k, v in form.multi_items():
            if isinstance(v, UploadFile):
                pos = v.file.tell()
                data = v.file.read()
                v.file.seek(0)
                out.append((k, (v.filename, v.content_type, list(v.headers.raw), data), v.size, pos))
            else:
                out.append((k, v))
        return out

    async def reader(request):
        acc = case["access"]
        if acc == "body-first":
            mon.eq(await request.body(), body, "body", "body() before form()")
        if acc == "with":
            async with request.form() as form:
                res["items"] = snapshot(form)
                res["type"] = type(form)
            res["closed"] = [v.file.closed for v in form.values() if isinstance(v, UploadFile)] + [v.file.closed for _, v in form.multi_items() if isinstance(v, UploadFile)]
            res["keys"] = [k for k, _ in form.multi_items()]
        else:
            form = await request.form()
            res["type"] = type(form)
            res["items"] = snapshot(form)
            if acc == "twice":
                res["again"] = snapshot(await request.form())
            if acc == "body-first":
                mon.eq(await request.body(), body, "body-after-form", "body() after form()")
            if kind == "non":
                mon.eq(await request.body(), body, "non-form-body", "body() after form() of something that is not a form")
            if acc == "close":
                await form.close()
                res["closed"] = [v.file.closed for _, v in form.multi_items() if isinstance(v, UploadFile)]
                res["keys"] = [k for k, _ in form.multi_items()]
            await request.close()

    async def raw(scope, receive, send):
        await reader(Request(scope, receive))
        await PlainTextResponse("x")(scope, receive, send)

    async def endpoint(request):
        await reader(request)
        return PlainTextResponse("x")

    app = raw if case["via"] == "raw" else Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    headers = [("content-type", ct)] if ct is not None else []
    t = drive(app, http_scope(method="POST", headers=headers), chunks=msgs, backend=case["backend"], seed=case["seed"], jitter=case["seed"] % 3)
    no_leaks(t, mon)
    if t.exc:
        raise t.exc
    got = [tuple(x[:2]) for x in res["items"]]
    want = [tuple(x) for x in want]
    mon.ok(issubclass(res["type"], FormData), "form-type", f"{res['type']}")
    mon.eq(got, want, "items", f"the items of a {kind} form sent as {ct!r} in {len(msgs)} messages")
    for x in res["items"]:
        if len(x) == 4:
            mon.n("files compared")
            mon.eq(x[2], len(x[1][3]), "file-size", "the size of an uploaded file")
            mon.eq(x[3], 0, "file-position", "the position of an uploaded file")
        else:
            mon.n("fields compared")
    if "again" in res:
        mon.eq([x[:2] for x in res["again"]], [x[:2] for x in res["items"]], "form-again", "form() the second time")
    if "closed" in res:
        mon.n("closed forms")
        mon.ok(all(res["closed"]), "files-left-open", f"after the form was closed: {res['closed']}")
        mon.eq(res["keys"], [k for k, _ in want], "items-after-close", "keys after the form was closed")
    mon.ok(not tracking.still_open(), "files-left-open", f"{len(tracking.still_open())} temporary files are open after the request was closed")
    big = [it for it in case.get("items", []) if kind == "mp" and it[0] == "F" and len(mk(it[5])) > 1048576]
    if big:
        mon.n("rolled files", tracking.STATS["rolled"])
        mon.ok(tracking.STATS["rolled"] >= len(big), "not-spooled", "an upload larger than 1 MB was kept in memory")
    mon.n({"mp": "multipart forms", "ue": "urlencoded forms", "raw-ue": "urlencoded forms", "non": "non-forms"}[kind])
    if fallback:
        mon.n("charset fallbacks", fallback)
    mon.nontrivial(kind, len(want), len(msgs), case["access"], case.get("charset"), bool(big))
