from __future__ import annotations

import email.utils
import mimetypes
import os
import re
import stat
import threading
import urllib.parse

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.responses import FileResponse
from starlette.routing import Route

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks
from vp.engine import mk

ID = "C04"
PROP = dict(
    title="File responses deliver the complete file with truthful metadata",
    statement=(
        "For every regular file, a file response to a request without a usable Range sends exactly the file's bytes, in order, with "
        "Content-Length equal to its size, Last-Modified equal to its modification time, and a quoted ETag that is the same whenever size and "
        "modification time are unchanged and different when either changes; a HEAD request gets the same headers and no body. The media type is the given "
        "one or guessed from the download name or path (text/plain otherwise), Accept-Ranges is announced, caller-supplied headers win, and any "
        "download name - including quotes, control characters and non-ASCII - is conveyed in a Content-Disposition that decodes back to it without breaking the header. "
        "A path that is missing or not a regular file raises before anything is sent, and no file descriptor stays open afterwards."
    ),
    over=["inputs", "configurations", "fault_sequences"],
    quant="every file size and content, path type, download name, disposition, stat supplied or not, header mapping, method, send failure point, backend",
    why="tests serve a few small fixed files; chunk-boundary sizes, names and validators are claims over all files",
    files=["starlette/responses.py"],
    mechanism=[("FileResponse.set_stat_headers / _handle_simple", "starlette/responses.py:FileResponse")],
)
TECH = "runtime monitoring: recorded ASGI output and open-descriptor counts judged against the file on disk"
RULE = "each case is a file (size around chunk boundaries, mtime, name), FileResponse arguments, method and an optional failing send; non-trivial when bytes or headers of a served file were compared or a refusal observed"
LEVEL_NOTE = "held on the generated files and arguments"
BUDGET = {"quick": (40000, 18), "thorough": (500000, 240)}
REQUIRED = ("files served", "HEAD requests", "refused paths", "etag pairs", "content-dispositions decoded")

SIZES = [0, 1, 2, 3, 5, 9, 10, 11, 255, 256, 4095, 4096, 65535, 65536, 65537, 131071, 131072, 131073, 196608, 200001]
NAMES = ["a.txt", "a.html", "b.css", "c.js", "d.json", "e.tar.gz", "f", "g.unknownext", "h.PNG", ".hidden", "i.svg", "é.txt", "sp ace.pdf", "日本.csv", "j.mp4", "semi;colon.txt"]


def fixed(tier):
    out = []
    for size in SIZES:
        for method in ("GET", "HEAD"):
            out.append(dict(size=size, seed=size, name="a.txt", mtime=1700000000, kw={}, method=method, stat=False, via="raw", fail=None, kind="file", path="str", headers=None, req=[], backend="asyncio"))
    for dn in ("x.txt", 'a"b.txt', "a\r\nSet-Cookie: x=y", "é", "日本.txt", "a b", "%41", "a;b", "a/b", "\x00", "'", "a\\b", "~x", ""):
        for disp in (None, "inline"):
            kw = {"filename": dn}
            if disp:
                kw["content_disposition_type"] = disp
            out.append(dict(size=10, seed=1, name="a.txt", mtime=1700000000, kw=kw, method="GET", stat=False, via="raw", fail=None, kind="file", path="str", headers=None, req=[], backend="asyncio"))
    for kind in ("missing", "dir", "fifo", "symlink", "brokenlink"):
        for method in ("GET", "HEAD"):
            out.append(dict(size=10, seed=1, name="a.txt", mtime=1700000000, kw={}, method=method, stat=False, via="raw", fail=None, kind=kind, path="str", headers=None, req=[], backend="asyncio"))
    return out


def gen(rng, tier):
    kw = {}
    if rng.random() < 0.4:
        kw["filename"] = rng.choice(NAMES + [gens.text(rng, 1, 12, ctl=True)])
        if rng.random() < 0.4:
            kw["content_disposition_type"] = rng.choice(["inline", "attachment", "form-data"])
    if rng.random() < 0.25:
        kw["media_type"] = rng.choice(["text/x", "application/x-y", "image/png", "text/html; charset=latin-1"])
    if rng.random() < 0.2:
        kw["status_code"] = rng.choice([200, 201, 404, 500, 203])
    headers = None
    if rng.random() < 0.3:
        headers = [[gens.cased(rng, n), v] for n, v in rng.sample([("etag", '"mine"'), ("last-modified", "Mon, 01 Jan 2001 00:00:00 GMT"), ("cache-control", "no-cache"), ("content-disposition", "inline"), ("accept-ranges", "none"), ("content-type", "a/b"), ("x-q", "1")], rng.randrange(1, 5))]
    size = rng.choice(SIZES) if rng.random() < 0.8 else rng.randrange(0, 300000)
    return dict(
        size=size,
        seed=rng.randrange(4),
        name=rng.choice(NAMES),
        mtime=rng.choice([0, 1, 1700000000, 1700000000.5, 1234567890.25, 2**31, 4102444800]),
        kw=kw,
        method=rng.choice(["GET", "GET", "HEAD", "head", "get", "POST"]),
        stat=rng.random() < 0.3,
        via=rng.choice(["raw", "app"]),
        fail=rng.choice([None, None, None, None, rng.randrange(0, 4)]),
        kind=rng.choice(["file"] * 12 + ["missing", "dir", "fifo", "symlink", "brokenlink"]),
        path=rng.choice(["str", "pathlib", "rel"]),
        headers=headers,
        req=rng.choice([[], [], [["range", "bytes=0-3"], ["if-range", '"nope"']], [["if-none-match", "*"]], [["if-range", "x"]], [["range", "bytes=1-"], ["if-range", "Mon, 01 Jan 1990 00:00:00 GMT"]]]),
        backend=rng.choice(["asyncio"] * 5 + ["trio"]),
    )


def nfds():
    return len(os.listdir("/proc/self/fd"))


def decode_disposition(value):
    """RFC 6266 decoding of the parameters we understand."""
    m = re.fullmatch(r"([a-z-]+); filename\*=utf-8''([A-Za-z0-9!#$&+.^_`|~%/-]*)", value)
    if m:
        return m.group(1), urllib.parse.unquote(m.group(2), encoding="utf-8", errors="strict")
    m = re.fullmatch(r'([a-z-]+); filename="((?:[^"\\\r\n]|\\.)*)"', value)
    if m:
        return m.group(1), re.sub(r"\\(.)", r"\1", m.group(2))
    return None, None


def run(case, mon):
    import pathlib

    d = os.path.join(mon.tmp, "files")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        os.rmdir(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    p = os.path.join(d, case["name"])
    data = mk(["rnd", case["seed"], case["size"]])
    kind = case["kind"]
    if kind == "file":
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (case["mtime"], case["mtime"]))
    elif kind == "symlink":
        q = os.path.join(d, "target-of-link")
        with open(q, "wb") as f:
            f.write(data)
        os.utime(q, (case["mtime"], case["mtime"]))
        os.symlink(q, p)
    elif kind == "brokenlink":
        os.symlink(os.path.join(d, "nowhere"), p)
    elif kind == "dir":
        os.mkdir(p)
    elif kind == "fifo":
        os.mkfifo(p)
    served = kind in ("file", "symlink")
    if not served:
        case = dict(case, fail=None)
    path = {"str": p, "pathlib": pathlib.Path(p), "rel": os.path.relpath(p)}[case["path"]]
    kw = dict(case["kw"])
    if case["headers"]:
        kw["headers"] = {k: v for k, v in case["headers"]}
    if case["stat"] and served:
        kw["stat_result"] = os.stat(p)

    def build():
        return FileResponse(path, **kw)

    if case["via"] == "app":
        async def endpoint(request):
            return build()

        app = Starlette(routes=[Route("/", endpoint, methods=["GET", "HEAD", "POST", "get", "head"])])
    else:
        app = build()
    if case["via"] == "app":
        case = dict(case, method=case["method"].upper())
    scope = http_scope(method=case["method"], headers=[tuple(h) for h in case["req"]])
    before = nfds()
    t = drive(app, scope, backend=case["backend"], send_error_at=case["fail"])
    if nfds() > before:
        # descriptors may be closed by a worker thread that is just finishing
        import gc
        import time

        for _ in range(200):
            gc.collect()
            if nfds() <= before:
                break
            time.sleep(0.01)
        else:
            mon.fail("fd-leak", f"{nfds() - before} descriptors are still open after the response (send failed at {case['fail']})")
    no_leaks(t, mon)
    if not served:
        mon.n("refused paths")
        mon.ok(isinstance(t.exc, RuntimeError), "refusal", f"{kind}: ended with {t.exc!r}")
        mon.ok(t.start is None or case["via"] == "app" and t.status == 500, "refusal-sent", f"{kind}: something was sent: {t.sent}")
        mon.nontrivial("refused", kind, case["method"])
        return
    if case["fail"] is not None and case["fail"] < len(t.sent):
        mon.ok(isinstance(t.exc, OSError), "send-error", f"the server's send error did not propagate: {t.exc!r}")
        mon.eq(data[: len(t.body)], t.body, "body-prefix", "bytes sent before the failure")
        mon.nontrivial("sendfail", case["fail"])
        return
    if t.exc:
        raise t.exc
    head = case["method"].upper() == "HEAD"
    http_protocol(t, mon, method=case["method"].upper())
    mon.n("files served")
    mon.eq(t.status, case["kw"].get("status_code", 200), "status", "status")
    if head:
        mon.n("HEAD requests")
        mon.eq(t.body, b"", "head-body", "HEAD body")
    elif t.body != data:
        i = next((i for i, (a, b) in enumerate(zip(t.body, data)) if a != b), min(len(t.body), len(data)))
        mon.fail("body", f"{len(t.body)} bytes sent for a {len(data)}-byte file, first difference at {i}")
    supplied = {k.lower(): v for k, v in (case["headers"] or [])}

    def h(name):
        vals = t.header_all(name)
        if len(vals) > 1:
            mon.fail("duplicate-header", f"{name}: {vals}")
        return vals[0] if vals else None

    for k, v in supplied.items():
        mon.eq(h(k), v, "supplied-header", f"caller's {k}")
    st = os.stat(p)
    mon.eq(h("content-length"), str(len(data)), "content-length", "content-length")
    if "last-modified" not in supplied:
        mon.eq(h("last-modified"), email.utils.formatdate(st.st_mtime, usegmt=True), "last-modified", "last-modified")
    if "accept-ranges" not in supplied:
        mon.eq(h("accept-ranges"), "bytes", "accept-ranges", "accept-ranges")
    if "content-type" not in supplied:
        mt = case["kw"].get("media_type") or mimetypes.guess_type(case["kw"].get("filename") or path)[0] or "text/plain"
        if mt.startswith("text/") and "charset=" not in mt:
            mt += "; charset=utf-8"
        mon.eq(h("content-type"), mt, "content-type", "content-type")
    if "content-disposition" not in supplied:
        cd = h("content-disposition")
        fn = case["kw"].get("filename")
        if fn is None:
            mon.eq(cd, None, "content-disposition", "content-disposition without a download name")
        else:
            mon.n("content-dispositions decoded")
            mon.eq(decode_disposition(cd or ""), (case["kw"].get("content_disposition_type", "attachment"), fn), "content-disposition", f"decoded {cd!r}")
    for k, v in t.headers:
        mon.ok(not re.search(rb"[\r\n\x00]", k + v), "header-injection", f"{k!r}: {v!r}")
    if "etag" not in supplied:
        etag = h("etag")
        mon.ok(bool(re.fullmatch(r'"[\x21\x23-\x7e]+"', etag or "")), "etag-syntax", f"etag {etag!r}")
        # same content again: same etag; then change mtime, then size
        def etag_now():
            t2 = drive(FileResponse(path), http_scope(method="HEAD"))
            return t2.header("etag")

        mon.n("etag pairs")
        mon.eq(etag_now(), etag, "etag-stable", "etag of the unchanged file")
        if case["seed"] == 0 and kind == "file":
            for delta in (1, 0.25, 0.5, 0.001, 60, -1):  # same size, another modification time
                os.utime(p, (st.st_mtime, st.st_mtime + delta))
                if os.stat(p).st_mtime != st.st_mtime:
                    mon.ok(etag_now() != etag, "etag-mtime", f"etag {etag} did not change when the modification time moved by {delta} s")
            with open(p, "ab") as f:
                f.write(b"!")
            # versions of which the digits of time and size are the same in a row
            for (t1, n1), (t2, n2) in (((1700000000.5, 25), (1700000000.5 + 0.02, 5)), ((1700000000.25, 11), (1700000000.251, 1)), ((10.5, 12), (10.51, 2)), ((1.0, 12), (1.01, 2))):
                tags = []
                for t, n in ((t1, n1), (t2, n2)):
                    with open(p, "wb") as f:
                        f.write(b"v" * n)
                    os.utime(p, (t, t))
                    tags.append((str(os.stat(p).st_mtime), etag_now()))
                mon.ok(tags[0][1] != tags[1][1], "etag-pair", f"the same ETag for {n1} bytes at {tags[0][0]} and {n2} bytes at {tags[1][0]}")
            with open(p, "wb") as f:
                f.write(b"!" * (case["size"] + 1))
            os.utime(p, (st.st_mtime, st.st_mtime))
            mon.ok(etag_now() != etag, "etag-size", f"etag {etag} did not change with the size")
    mon.nontrivial(case["size"] // 65536, case["size"] % 65536 in (0, 1, 65535), case["method"], sorted(case["kw"]), sorted(supplied), case["stat"], bool(case["req"]))
