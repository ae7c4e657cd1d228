from __future__ import annotations

import os
import re

from starlette.applications import Starlette
from starlette.responses import FileResponse
from starlette.routing import Mount, Route
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks
from vp.engine import mk

ID = "C05"
PROP = dict(
    title="Range requests return exactly the requested bytes of the file",
    statement=(
        "For every file and every well-formed bytes Range header (first-last, first-, suffix, several of them, any spacing, order or overlap) whose "
        "ranges all start inside the file, the response is 206 and carries exactly the union of the requested bytes: one contiguous range gives Content-Range "
        "'bytes first-last/size', a matching Content-Length and exactly those bytes; otherwise a multipart body whose parts are disjoint, ascending, labelled "
        "with their true Content-Range and hold exactly those bytes of the file. A range starting at or beyond the end gives 416 with the file size, a "
        "malformed or reversed one 400, and with If-Range naming neither the current ETag nor Last-Modified the whole file is sent with 200; no "
        "Range header ever causes a server error."
    ),
    over=["inputs"],
    quant="every file size, range set (including boundaries, overlaps, adjacency, huge numbers and junk), If-Range value, method, chunk size",
    why="tests try about a dozen hand-picked ranges on one 526-byte file",
    files=["starlette/responses.py"],
    mechanism=[("range parsing and merging", "starlette/responses.py:FileResponse"), ("single/multi range senders", "starlette/responses.py:FileResponse")],
)
TECH = "runtime monitoring: recorded responses decoded (multipart parsed) and compared with an interval-set reference"
RULE = "each case is a file size and a Range/If-Range header; non-trivial when a 206, 416 or 400 decision was compared with the reference"
LEVEL_NOTE = "held on the generated headers; syntactically odd but tolerated headers are only required not to fail and to send true data"
BUDGET = {"quick": (60000, 18), "thorough": (1000000, 300)}
REQUIRED = ("single ranges", "multi ranges", "416", "400", "if-range full", "junk headers")
ASSUMPTIONS = ["the file is not modified while it is served (except in the truncation cases, which only require termination)"]

SIZES = [1, 2, 3, 10, 11, 100, 526, 1000, 65535, 65536, 65537, 131072, 200000]


VALIDATORS: dict = {}


class Small(FileResponse):
    chunk_size = 7


def fixed(tier):
    out = []
    for n in (1, 2, 10):
        for a in list(range(0, n + 2)):
            for b in list(range(0, n + 2)):
                out.append(dict(size=n, rng=f"bytes={a}-{b}", ifr=None, method="GET", cls="std", kind="wf"))
            out.append(dict(size=n, rng=f"bytes={a}-", ifr=None, method="GET", cls="std", kind="wf"))
            out.append(dict(size=n, rng=f"bytes=-{a}", ifr=None, method="GET", cls="std", kind="wf"))
    for s in ("bytes=0-4,6-9", "bytes=6-9,0-4", "bytes=0-4,5-9", "bytes=0-4,4-6", "bytes=0-9,2-3", "bytes=2-3,0-9", "bytes=0-1,8-9,4-5", "bytes=0-5,10-15,3-12", "bytes=0-0,-1", "bytes=0-0,2-2,4-4,6-6,8-8", "bytes=0-0,0-0", "bytes= 1-2 , 4-5", "BYTES=0-1", "bytes=1-2,50-60", "bytes=5-4,0-1", "bytes=-3,0-1"):
        for n in (10, 20, 100):
            for m in ("GET", "HEAD"):
                out.append(dict(size=n, rng=s, ifr=None, method=m, cls="std", kind="wf"))
    for s in ("", "bytes", "bytes=", "bytes=,", "bytes=-", "bytes=a-b", "items=0-1", "bytes=--1", "=0-1", "bytes:0-1", "bytes=" + "1" * 5000 + "-", "bytes=0-" + "9" * 5000, "bytes=-" + "9" * 5000, "bytes=0-1" + ",0-1" * 500, "bytes=0x1-2", "bytes=1 2-3", "bytes==0-1", "\xff", "bytes=0-1;x", "bytes=٣-٤".encode().decode("latin-1"), "bytes=\xb2-\xb3"):
        for m in ("GET", "HEAD"):
            out.append(dict(size=100, rng=s, ifr=None, method=m, cls="std", kind="junk"))
    for s in ("bytes=0-9,20-99", "bytes=0-9,20-99,200-999", "bytes=9-9,99-99,999-999", "bytes=10-10,100-100,1000-1000", "bytes=8-8,98-98,998-998", "bytes=0-0,10-99,500-999,-1"):
        for m in ("GET", "HEAD"):
            out.append(dict(size=20000, rng=s, ifr=None, method=m, cls="std", kind="wf"))
    for ifr in ("etag", "lm", "bad", "wetag", "empty", "etag-prefix", "lm-other"):
        for r in ("bytes=0-4", "bytes=0-4,8-9", "bytes=500-", "bytes=5-1"):
            out.append(dict(size=100, rng=r, ifr=ifr, method="GET", cls="std", kind="wf"))
    for r in ("bytes=100-199990", "bytes=0-10,150000-199990", "bytes=0-70000,150000-160000"):
        out.append(dict(size=200000, rng=r, ifr=None, method="GET", cls="std", kind="trunc"))
    return out


def one_range(rng, n):
    r = rng.random()
    edge = [0, 1, 2, 9, 10, 99, 100, 999, 1000, 9999, n // 2, n - 2, n - 1, n, n + 1, 65535, 65536, 65537]

    def pos():
        p = rng.choice(edge) if rng.random() < 0.5 else rng.randrange(0, n + 1)
        return max(0, p)

    if r < 0.6:
        a, b = pos(), pos()
        if a > b and rng.random() < 0.85:
            a, b = b, a
        return f"{a}-{b}"
    if r < 0.8:
        return f"{pos()}-"
    return f"-{pos() or 1}"


def gen(rng, tier):
    n = rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(1, 3000)
    r = rng.random()
    if r < 0.12:
        junk = "".join(rng.choice(["bytes=", "bytes", "=", "-", ",", "0", "1", "9", "5", " ", "a", "\t", ";", "*", "/", "--", "\xe9", "-5", "3-"]) for _ in range(rng.randrange(0, 10)))
        return dict(size=n, rng=junk, ifr=None, method=rng.choice(["GET", "HEAD"]), cls="std", kind="junk")
    k = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 12])
    sep = rng.choice([",", ", ", " ,", " , "])
    parts = [one_range(rng, n) for _ in range(k)]
    if k > 1 and rng.random() < 0.5:
        # cluster the ranges so that they touch and overlap
        base = rng.randrange(0, n)
        parts = []
        for _ in range(k):
            a = min(n - 1, max(0, base + rng.randrange(-6, 7)))
            b = min(n - 1, a + rng.randrange(0, 5))
            parts.append(f"{a}-{b}")
    return dict(
        size=n,
        rng="bytes=" + sep.join(parts),
        ifr=rng.choice([None, None, None, "etag", "lm", "bad", "wetag", "etag-prefix", "lm-other", "lm-later"]),
        method=rng.choice(["GET", "GET", "GET", "HEAD"]),
        cls=rng.choice(["std", "std", "small"]) if n <= 3000 else "std",
        kind="wf",
        via=rng.choice(["raw", "raw", "app", "static"]),
    )


def reference(header, n):
    """-> ('206', intervals) | ('416',) | ('400',)"""
    spec = header.split("=", 1)[1]
    ranges = []
    for part in spec.split(","):
        a, b = part.strip().split("-")
        if a == "":
            first, last = max(n - int(b), 0), n - 1
        else:
            first = int(a)
            last = min(int(b), n - 1) if b else n - 1
            if b and int(b) < first:
                last = int(b) if int(b) < n else n - 1
        ranges.append((first, last))
    if any(f >= n for f, _ in ranges):
        return ("416",)
    if any(l < f for f, l in ranges):
        return ("400",)
    cover = sorted(ranges)
    merged = [list(cover[0])]
    for f, l in cover[1:]:
        if f <= merged[-1][1] + 1:
            merged[-1][1] = max(merged[-1][1], l)
        else:
            merged.append([f, l])
    return ("206", [tuple(x) for x in merged])


def parse_multipart(body, boundary):
    """Strict on framing, lenient on CR/LF. -> [(headers, data)]"""
    pos, parts = 0, []
    mark = b"--" + boundary
    while True:
        while body[pos : pos + 1] in (b"\r", b"\n"):
            pos += 1
        if not body.startswith(mark, pos):
            raise ValueError(f"boundary expected at {pos}: {body[pos:pos+60]!r}")
        pos += len(mark)
        if body.startswith(b"--", pos):
            tail = body[pos + 2 :]
            if tail.strip(b"\r\n"):
                raise ValueError(f"data after the closing boundary: {tail[:60]!r}")
            return parts
        headers = {}
        m = re.compile(rb"\r?\n").match(body, pos)
        if not m:
            raise ValueError("newline expected after the boundary")
        pos = m.end()
        while True:
            m = re.compile(rb"([^\r\n]*)\r?\n").match(body, pos)
            if not m:
                raise ValueError("unterminated part header")
            pos = m.end()
            if not m.group(1):
                break
            k, _, v = m.group(1).partition(b":")
            headers[k.strip().lower().decode()] = v.strip().decode("latin-1")
        cr = re.fullmatch(r"bytes (\d+)-(\d+)/(\d+)", headers.get("content-range", ""))
        if not cr:
            raise ValueError(f"part without a valid Content-Range: {headers}")
        f, l, size = map(int, cr.groups())
        data = body[pos : pos + l - f + 1]
        pos += l - f + 1
        parts.append((f, l, size, headers, data))


def run(case, mon):
    d = os.path.join(mon.tmp, "r")
    os.makedirs(d, exist_ok=True)
    n = case["size"]
    name = f"f{n}.bin"
    p = os.path.join(d, name)
    if case["kind"] == "trunc":
        p = os.path.join(d, "trunc.bin")
    data = mk(["rnd", n, n])
    if not os.path.exists(p) or case["kind"] == "trunc":
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1700000000, 1700000000))
    cls = Small if case["cls"] == "small" else FileResponse
    if (p, n) not in VALIDATORS:
        h0 = drive(FileResponse(p), http_scope(method="HEAD"))
        VALIDATORS[p, n] = h0.header("etag"), h0.header("last-modified")
    etag, lm = VALIDATORS[p, n]
    headers = [("range", case["rng"])]
    ifr = case["ifr"]
    usable = True
    if ifr:
        value = {"etag": etag, "lm": lm, "bad": '"zzz"', "wetag": "W/" + etag, "empty": "", "etag-prefix": etag[:-2], "lm-other": "Tue, 14 Nov 2023 22:13:21 GMT", "lm-later": "Tue, 14 Nov 2034 22:13:21 GMT"}[ifr]
        headers.append(("if-range", value))
        usable = ifr in ("etag", "lm")
    via = case.get("via", "raw")
    if via == "static":
        app = Starlette(routes=[Mount("/s", StaticFiles(directory=d))])
        scope = http_scope(method=case["method"], path="/s/" + name, headers=headers)
    elif via == "app":
        async def endpoint(request):
            return cls(p)

        app = Starlette(routes=[Route("/", endpoint)])
        scope = http_scope(method=case["method"], headers=headers)
    else:
        app = cls(p)
        scope = http_scope(method=case["method"], headers=headers)

    if case["kind"] == "trunc":
        # the file shrinks while it is being sent: the response must still terminate
        count = [0]

        async def truncating(scope, receive, send):
            async def snd(m):
                count[0] += 1
                if count[0] == 2:
                    os.truncate(p, 50)
                if count[0] > 2000:
                    raise RuntimeError("endless response")
                await send(m)

            await app(scope, receive, snd)

        t = drive(truncating, scope)
        mon.ok(count[0] <= 2000, "endless", "the response did not terminate after the file was truncated")
        mon.n("truncations survived")
        mon.nontrivial("trunc", case["rng"])
        return

    t = drive(app, scope)
    no_leaks(t, mon)
    if t.exc:
        raise t.exc
    head = case["method"] == "HEAD"
    status = t.status
    got_cr = t.header("content-range")
    multi = status == 206 and not (got_cr or "").startswith("bytes ")
    http_protocol(t, mon, method=case["method"], check_length=not multi)

    if case["kind"] == "junk":
        mon.n("junk headers")
        mon.ok(status in (200, 206, 400, 416), "junk-status", f"Range {case['rng'][:80]!r} gave {status}")
        if status == 200 and not head:
            mon.eq(t.body, data, "junk-full", "body")
        if status == 206 and not head and not multi:
            m = re.fullmatch(r"bytes (\d+)-(\d+)/(\d+)", got_cr)
            f, l = int(m.group(1)), int(m.group(2))
            mon.ok(f <= l < n, "junk-range", got_cr)
            mon.eq(t.body, data[f : l + 1], "junk-body", "body")
        if status == 206 and multi and not head:
            check_multi(t, mon, data, None)
        mon.nontrivial("junk", status)
        return
    if not usable:
        mon.n("if-range full")
        mon.eq(status, 200, "if-range", f"status with If-Range {ifr}")
        mon.eq(t.body, b"" if head else data, "if-range-body", "body")
        mon.eq(t.header("content-length"), str(n), "if-range-length", "content-length")
        mon.nontrivial("if-range", ifr)
        return
    want = reference(case["rng"], n)
    mon.eq(str(status), want[0], "status", f"status for {case['rng']!r} on {n} bytes")
    if want[0] == "416" and status == 416:
        mon.n("416")
        mon.ok((got_cr or "").endswith(f"*/{n}"), "416-size", f"content-range {got_cr!r}")
        mon.nontrivial("416")
    elif want[0] == "400" and status == 400:
        mon.n("400")
        mon.nontrivial("400")
    elif status == 206 and want[0] == "206":
        ivs = want[1]
        mon.eq(t.header("etag"), etag, "etag", "etag of a partial response")
        if len(ivs) == 1:
            mon.n("single ranges")
            f, l = ivs[0]
            mon.eq(got_cr, f"bytes {f}-{l}/{n}", "content-range", "content-range")
            mon.eq(t.header("content-length"), str(l - f + 1), "content-length", "content-length")
            mon.eq(t.body, b"" if head else data[f : l + 1], "body", "body")
        else:
            mon.n("multi ranges")
            if head:
                mon.eq(t.body, b"", "head-body", "HEAD body")
                # the length announced to HEAD is the one announced to GET
                t2 = drive(cls(p), http_scope(headers=headers))
                mon.eq(t.header("content-length"), t2.header("content-length"), "head-length", "content-length of HEAD versus GET")
            else:
                check_multi(t, mon, data, ivs)
        mon.nontrivial("206", len(ivs), via, head, n // 65536)


def check_multi(t, mon, data, ivs):
    n = len(data)
    m = re.search(r"boundary=([^;\s]+)", (t.header("content-range") or "") + " ; " + (t.header("content-type") or ""))
    if not m:
        mon.fail("no-boundary", f"no boundary is announced: {t.headers}")
        return
    try:
        parts = parse_multipart(t.body, m.group(1).encode())
    except ValueError as exc:
        mon.fail("multipart-framing", str(exc))
        return
    prev = -1
    for f, l, size, headers, chunk in parts:
        mon.eq(size, n, "part-size", "size in a part's Content-Range")
        mon.eq(chunk, data[f : l + 1], "part-body", f"bytes of part {f}-{l}")
        mon.ok(prev < f <= l < n, "part-order", f"parts overlap or are out of order: {[(p[0], p[1]) for p in parts]}")
        prev = l
        mon.ok("content-type" in headers, "part-type", f"part headers {headers}")
    if ivs is not None:
        got = []
        for f, l, *_ in parts:
            if got and got[-1][1] + 1 == f:
                got[-1] = (got[-1][0], l)
            else:
                got.append((f, l))
        mon.eq(got, ivs, "parts", "byte ranges covered by the parts")
    declared = int(t.header("content-length"))
    if len(t.body) - declared == 1:
        mon.fail("multirange-content-length-one-short", f"content-length {declared}, {len(t.body)} body bytes sent")
    else:
        mon.eq(declared, len(t.body), "content-length", "content-length of a multipart/byteranges response")
