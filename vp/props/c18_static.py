from __future__ import annotations

import importlib
import mimetypes
import os
import shutil
import sys
from email.utils import parsedate_to_datetime
from urllib.parse import quote, unquote, urlsplit

from starlette.applications import Starlette
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import drive, http_protocol, http_scope, no_leaks
from vp.engine import mk

ID = "C18"
PROP = dict(
    title="StaticFiles serves the current content of its directories",
    statement=(
        "For every configuration of directories and packages and every history of files being created, changed, replaced by directories or deleted, a GET of a path is answered with the current bytes, length, media type and validators of the file "
        "in the first configured directory that has it (a HEAD with the same headers and no body); other methods get 405 and everything else 404. "
        "In html mode a directory with an index.html redirects to its slash-terminated URL keeping the query and then serves that index, and misses get the 404.html page with status 404 whatever the request headers; "
        "an unreadable directory gives 401; a configured directory that does not exist is reported as a RuntimeError (at construction, or with check_dir=False at each request until it exists), never served."
    ),
    over=["inputs", "histories", "configurations"],
    quant="every directory tree, sequence of file changes and requests, html and check_dir setting, number of directories and packages, mount point, method",
    why="tests check single requests on fixed trees; the guarantees are about histories of changes and about precedence across directories",
    files=["starlette/staticfiles.py", "starlette/responses.py"],
    mechanism=[("get_response / lookup_path / check_config", "starlette/staticfiles.py:StaticFiles")],
)
TECH = "runtime monitoring: request histories interleaved with file changes, checked against an in-memory model of the directories"
RULE = "each case is a configuration and a history of 20-40 changes and requests; non-trivial when responses were compared with the model"
LEVEL_NOTE = "held on the generated histories; files are changed between requests, not while one is served"
BUDGET = {"quick": (40000, 10), "thorough": (400000, 150)}
REQUIRED = ("requests", "files served", "index pages", "directory redirects", "404 pages", "405", "missing directory errors", "second directory served", "package served", "changed files served", "range on 404")

NAMES = ["a.txt", "b.css", "c.js", "d.png", "e", "f.html", "g.json", "h.txt.gz", "index.html", "404.html", "sp ace.txt", "é.txt", "日本.html", "pl+us.txt", "per%cent.txt", "q?m.txt", "UP.TXT", ".dot", "x.unknownext", "f.svg", "am&p.txt", "per%41.txt"]
DIRS = ["", "sub", "sub/deep", "docs", "docs/v1.0", "with space"]


def worker_setup(mon):
    base = os.path.join(mon.tmp, "pk")
    os.makedirs(base)
    mon.pkg = f"vpstatic{os.getpid()}"
    os.makedirs(os.path.join(base, mon.pkg))
    open(os.path.join(base, mon.pkg, "__init__.py"), "w").close()
    sys.path.insert(0, base)
    mon.base = base
    for p in (os.path.dirname(mon.tmp), mon.tmp):
        os.chmod(p, 0o755)


def fixed(tier):
    out = []
    for html in (False, True):
        for mount in ("/", "/static"):
            ops = []
            for nm in NAMES:
                ops += [["write", 0, nm, ["rnd", 1, 100], 1000], ["get", "GET", "/" + nm, "", []], ["get", "HEAD", "/" + nm, "", []]]
            ops += [["write", 0, "sub/index.html", "sub index", 1000], ["get", "GET", "/sub", "", []], ["get", "GET", "/sub", "a=1&b=%20", []], ["get", "GET", "/sub/", "", []], ["get", "HEAD", "/sub/", "", []], ["get", "HEAD", "/sub", "", []], ["get", "GET", "/", "", []], ["get", "GET", "", "", []]]
            ops += [["get", m, "/a.txt", "", []] for m in ("POST", "PUT", "DELETE", "PATCH", "OPTIONS", "get", "CONNECT", "TRACE")] + [["get", "POST", "/nope", "", []]]
            ops += [["get", "GET", "/nope", "", []], ["get", "HEAD", "/nope", "", []], ["get", "GET", "/nope", "", [["range", "bytes=0-1"]]], ["get", "GET", "/a.txt/x", "", []], ["get", "GET", "/sub/nope/deep", "", []], ["get", "GET", "/a.txt/", "", []], ["get", "GET", "/nope", "", [["if-none-match", "CUR"]]], ["get", "GET", "/nope", "", [["if-modified-since", "Fri, 01 Jan 2100 00:00:00 GMT"]]]]
            ops += [["delete", 0, "404.html"], ["get", "GET", "/nope", "", []], ["write", 1, "404.html", "second 404", 5], ["get", "GET", "/nope", "", []], ["delete", 0, "a.txt"], ["get", "GET", "/a.txt", "", []], ["write", 1, "a.txt", "from second", 9], ["get", "GET", "/a.txt", "", []], ["write", 0, "a.txt", "back in first", 9], ["get", "GET", "/a.txt", "", []]]
            ops += [["write", 2, "only-package.txt", "pkg", 9], ["get", "GET", "/only-package.txt", "", []], ["write", 1, "only-package.txt", "dir wins", 9], ["get", "GET", "/only-package.txt", "", []]]
            ops += [["write", 1, "adir/index.html", "second index", 9], ["mkdir", 0, "adir"], ["get", "GET", "/adir/", "", []], ["write", 0, "404.html/x", "a directory named 404.html", 9], ["get", "GET", "/zzz", "", []], ["write", 0, "bdir/index.html/x", "x", 9], ["get", "GET", "/bdir/", "", []], ["get", "GET", "/bdir", "", []], ["lock", 0, "sub", "/sub/index.html"], ["lock", 0, "sub", "/sub/nope"], ["lock", 0, "sub", "/sub/"], ["lock", 0, "sub", "/sub"]]
            out.append(dict(html=html, mount=mount, dirs=3, root="", host="example.com", missing=None, ops=ops))
    for missing in ("ctor", "late", "late2", "file", "file-late", "nopkg", "nopkgdir", "pkgonly"):
        out.append(dict(html=False, mount="/static", dirs=1, root="", host="h", missing=missing, ops=[["get", "GET", "/a.txt", "", []]]))
    return out


def gen(rng, tier):
    ops = []
    nd = rng.choice([1, 1, 2, 3])
    paths = []
    for _ in range(rng.randrange(20, 40)):
        r = rng.random()
        d = rng.choice(DIRS)
        p = (d + "/" if d else "") + rng.choice(NAMES)
        if paths and rng.random() < (0.2 if r < 0.3 else 0.75):
            p = rng.choice(paths)
        elif rng.random() < 0.3:
            p = rng.choice(["404.html", (d + "/" if d else "") + "index.html"])
        if r < 0.3:
            if rng.random() < 0.05:
                p = p + "/" + rng.choice(NAMES)
            ops.append(["write", rng.randrange(nd), p, rng.choice(["", "x", "new", ["rnd", rng.randrange(99), rng.choice([1, 10, 1000, 65536, 65537, 200000])]]), rng.choice([1000, 1000, 2000, 86400 * 365, 1.5, 10**9])])
            paths.append(p)
        elif r < 0.37:
            ops.append(["delete", rng.randrange(nd), p])
        elif r < 0.4:
            ops.append(["mkdir", rng.randrange(nd), p])
        else:
            if rng.random() < 0.25:
                p = os.path.dirname(p) + rng.choice(["", "/"])
            elif rng.random() < 0.1:
                p += rng.choice(["/", "x", "/index.html", "//"])
            hs = []
            if rng.random() < 0.1:
                hs = [["range", rng.choice(["bytes=0-0", "bytes=0-1", "bytes=-1", "junk", "bytes=5-1", "bytes=999999-"])]]
            elif rng.random() < 0.1:
                hs = [["accept-encoding", "gzip"], ["accept", "text/plain"]]
            ops.append(["get", rng.choice(["GET"] * 10 + ["HEAD"] * 4 + ["POST", "OPTIONS", "DELETE"]), "/" + p, rng.choice(["", "", "v=1", "a=%2F&b=c%20d", "x"]), hs])
    return dict(html=rng.random() < 0.5, mount=rng.choice(["/", "/static", "/a/b c"]), dirs=nd, root=rng.choice(["", "", "/root"]), host=rng.choice(["example.com", "h:8000", "127.0.0.1:81"]), missing=None, ops=ops)


def mount_app(case, sf):
    return Starlette(routes=[Mount(case["mount"], app=sf)])


def run_missing(case, mon):
    kind = case["missing"]
    d = os.path.join(mon.tmp, "maybe")
    if os.path.isdir(d):
        shutil.rmtree(d)
    elif os.path.exists(d):
        os.unlink(d)

    def raises(fn, types, key):
        mon.n("missing directory errors")
        try:
            fn()
        except types:
            return
        mon.fail(key, f"{kind}: a static directory that is not there was accepted")

    if kind == "nopkg":
        raises(lambda: StaticFiles(packages=["vp_no_such_package"]), (AssertionError, ImportError, RuntimeError), "missing-package")
        return
    if kind == "nopkgdir":
        raises(lambda: StaticFiles(packages=[(mon.pkg, "not_there")]), (AssertionError, RuntimeError), "missing-package-dir")
        return
    if kind == "pkgonly":
        os.makedirs(os.path.join(mon.base, mon.pkg, "statics"), exist_ok=True)
        with open(os.path.join(mon.base, mon.pkg, "statics", "z.txt"), "w") as f:
            f.write("z")
        for pk in ([mon.pkg], [(mon.pkg, "statics")]):
            t = drive(mount_app(case, StaticFiles(packages=pk)), http_scope("GET", "/static/z.txt"))
            mon.eq((t.exc, t.status, t.body), (None, 200, b"z"), "package-only", "file of a package")
        mon.nontrivial(kind)
        return
    if kind in ("file", "file-late"):
        with open(d, "w") as f:
            f.write("not a directory")
    if kind in ("ctor", "file"):
        raises(lambda: StaticFiles(directory=d), RuntimeError, "missing-at-construction")
        mon.nontrivial(kind)
        return
    app = mount_app(case, StaticFiles(directory=d, check_dir=False))
    for _ in range(3 if kind != "late" else 1):
        t = drive(app, http_scope("GET", "/static/a.txt"))
        mon.n("missing directory errors")
        mon.ok(isinstance(t.exc, RuntimeError), "missing-at-request", f"a request to a StaticFiles whose directory is missing: {t.exc!r}, status {t.status}")
    if os.path.exists(d):
        os.unlink(d)
    os.makedirs(d)
    with open(os.path.join(d, "a.txt"), "w") as f:
        f.write("now")
    t = drive(app, http_scope("GET", "/static/a.txt"))
    mon.eq((t.exc, t.status, t.body), (None, 200, b"now"), "appeared-later", "once the directory exists")
    mon.nontrivial(kind)


class FS:
    """Model: list of {path: (bytes, mtime) | 'dir'}"""

    def __init__(self, roots):
        self.roots = roots
        self.t = [dict() for _ in roots]

    def clear(self, i, p):
        full = os.path.join(self.roots[i], p)
        self.t[i] = {k: v for k, v in self.t[i].items() if k != p and not k.startswith(p + "/")}
        if os.path.isdir(full):
            shutil.rmtree(full)
        elif os.path.lexists(full):
            os.unlink(full)

    def parents(self, i, p):
        comps = p.split("/")[:-1]
        for n in range(1, len(comps) + 1):
            q = "/".join(comps[:n])
            if self.t[i].get(q, "dir") != "dir":
                self.clear(i, q)
            self.t[i][q] = "dir"
        os.makedirs(os.path.join(self.roots[i], *comps), exist_ok=True)

    def write(self, i, p, data, mtime):
        self.parents(i, p)
        if self.t[i].get(p) == "dir":
            self.clear(i, p)
        full = os.path.join(self.roots[i], p)
        with open(full, "wb") as f:
            f.write(data)
        os.utime(full, (mtime, mtime))
        self.t[i][p] = (data, mtime)

    def mkdir(self, i, p):
        self.parents(i, p)
        if self.t[i].get(p) != "dir":
            self.clear(i, p)
        os.makedirs(os.path.join(self.roots[i], p), exist_ok=True)
        self.t[i][p] = "dir"

    def look(self, p):
        p = "/".join(c for c in p.split("/") if c)
        for i, t in enumerate(self.t):
            if p == "":
                return i, "dir"
            if p in t:
                return i, t[p]
        return None, None


def run(case, mon):
    if case["missing"]:
        return run_missing(case, mon)
    roots = [os.path.join(mon.tmp, "d0"), os.path.join(mon.base, mon.pkg, "statics"), os.path.join(mon.base, mon.pkg, "assets", "v1")][: case["dirs"]]
    for r in roots:
        if os.path.isdir(r):
            shutil.rmtree(r)
        os.makedirs(r)
    importlib.invalidate_caches()
    sf = StaticFiles(directory=roots[0], packages=[mon.pkg, (mon.pkg, "assets/v1")][: case["dirs"] - 1] if case["dirs"] >= 2 else None, html=case["html"])
    app = mount_app(case, sf)
    fs = FS(roots)
    seen = []
    outcome = []
    pre = "" if case["mount"] == "/" else case["mount"]
    for op in case["ops"]:
        if op[0] == "write":
            if op[1] < len(roots):
                fs.write(op[1], op[2], mk(op[3]), op[4])
        elif op[0] == "delete":
            if op[1] < len(roots):
                fs.clear(op[1], op[2])
        elif op[0] == "mkdir":
            if op[1] < len(roots):
                fs.mkdir(op[1], op[2])
        elif op[0] == "lock":
            locked(case, op, roots, app, pre, mon)
        else:
            outcome.append(request(case, op, fs, app, pre, mon, seen))
    mon.nontrivial(case["html"], case["dirs"], outcome)


def locked(case, op, roots, app, pre, mon):
    d = os.path.join(roots[op[1]], op[2])
    if not os.path.isdir(d):
        return
    os.chmod(d, 0)
    try:
        try:
            os.seteuid(65534)
        except OSError:
            return
        try:
            readable = os.path.isdir(roots[op[1]]) and not os.access(d, os.X_OK, effective_ids=True)
            t = drive(app, http_scope("GET", case["root"] + pre + op[3], root_path=case["root"]))
        finally:
            os.seteuid(0)
    finally:
        os.chmod(d, 0o755)
    if readable:
        mon.n("unreadable directories")
        # the directory itself is only searched, for its index, in html mode
        want = 401 if case["html"] or op[3].strip("/") != op[2] else 404
        mon.eq((t.exc, t.status), (None, want), "unreadable-directory", f"GET {op[3]} below a directory that may not be searched")


def request(case, op, fs, app, pre, mon, seen):
    _, method, path, query, headers = op
    full = case["root"] + pre + path
    if not full.startswith("/"):
        return None
    if path == "" and pre:
        return None  # the slash redirect of the mount itself
    hs = [("host", case["host"])] + [tuple(h) for h in headers if h[1] != "CUR"]
    t = drive(app, http_scope(method, full, hs, query, root_path=case["root"], server=("example.com", 80)))
    mon.n("requests")
    what = f"{method} {full!r} {headers} (html {case['html']}, {case['dirs']} directories)"
    if t.exc:
        mon.fail("server-error", f"{what}: raised {t.exc!r}")
        return "exc"
    http_protocol(t, mon, method=method)
    no_leaks(t, mon)
    if method not in ("GET", "HEAD"):
        mon.n("405")
        mon.eq(t.status, 405, "method", f"{what}: status")
        return 405
    comps = []
    for c in path.split("/"):
        if c in ("", "."):
            continue
        comps.append(c)
    rel = "/".join(comps)
    i, node = fs.look(rel)
    ranged = any(h[0] == "range" for h in headers)
    status = 200
    if node is not None and node != "dir":
        mon.n("files served")
    elif node == "dir" and case["html"]:
        i, node = fs.look(rel + "/index.html")
        if node not in (None, "dir"):
            if not path.endswith("/") and not (path == "" and full.endswith("/")):
                mon.n("directory redirects")
                mon.ok(t.status in (301, 302, 303, 307, 308), "directory-redirect", f"{what}: status {t.status}")
                loc = t.header("location") or ""
                u = urlsplit(loc)
                if not any(c in full for c in "%?#"):
                    mon.eq((u.scheme, u.netloc, unquote(u.path), u.query, u.fragment), ("http", case["host"], full + "/", query, ""), "redirect-location", f"{what}: Location {loc!r}")
                mon.eq(t.body, b"", "redirect-body", what)
                return "redirect"
            mon.n("index pages")
            rel = rel + "/index.html"
        else:
            node = None
    else:
        node = None
    if node is None or node == "dir":
        page = None
        if case["html"]:
            i, page = fs.look("404.html")
        mon.eq(t.status, 404, "missing-status", f"{what}: status, headers {t.headers}")
        if page not in (None, "dir"):
            mon.n("404 pages")
            if ranged:
                mon.n("range on 404")
            mon.eq(t.body, page[0] if method == "GET" else b"", "404-page", what)
            mon.eq(t.header("content-length"), str(len(page[0])), "404-page-length", what)
            mon.ok((t.header("content-type") or "").startswith("text/html"), "404-page-type", f"{what}: {t.header('content-type')}")
        elif method == "GET":
            mon.ok(b"Not Found" in t.body, "404-text", f"{what}: {t.body[:50]!r}")
        return 404
    data, mtime = node
    if ranged:
        mon.ok(t.status in (200, 206, 416, 400), "range-status", f"{what}: status {t.status}")
        return "range"
    mon.eq(t.status, 200, "file-status", f"{what}: status, body {t.body[:60]!r}")
    mon.eq(t.body, data if method == "GET" else b"", "file-content", what)
    mon.eq(t.header("content-length"), str(len(data)), "file-length", what)
    if i:
        mon.n("second directory served")
    if i == case["dirs"] - 1 and case["dirs"] > 1:
        mon.n("package served")
    mt = mimetypes.guess_type(rel.split("/")[-1])[0] or "text/plain"
    got = (t.header("content-type") or "")
    mon.eq(got.split(";")[0], mt, "media-type", what)
    if mt.startswith("text/"):
        mon.ok("utf-8" in got, "charset", f"{what}: {got}")
    lm = t.header("last-modified")
    try:
        mon.eq(int(parsedate_to_datetime(lm).timestamp()), int(mtime), "last-modified", f"{what}: {lm}")
    except Exception as exc:  # noqa
        mon.fail("last-modified", f"{what}: {lm!r} {exc!r}")
    etag = t.header("etag") or ""
    mon.ok(len(etag) > 2 and etag[-1] == '"' and etag.lstrip("W/")[0] == '"', "etag", f"{what}: {etag!r}")
    for prel, petag, pm, pl in seen:
        if prel == rel and (pm, pl) != (mtime, len(data)):
            mon.n("changed files served")
            mon.ok(petag != etag, "etag-of-changed-file", f"{what}: ETag {etag} was also that of an earlier version ({pl} bytes at {pm}, now {len(data)} at {mtime})")
        elif prel == rel and (pm, pl) == (mtime, len(data)):
            mon.ok(petag == etag, "etag-stable", f"{what}: ETag {etag}, but {petag} for the same version")
    seen.append((rel, etag, mtime, len(data)))
    return 200
