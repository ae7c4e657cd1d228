from __future__ import annotations

import os
import sys

from starlette.applications import Starlette
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import drive, http_protocol, http_scope

ID = "C17"
PROP = dict(
    title="Static files are only ever served from inside the configured directories",
    statement=(
        "Whatever the request path - parent references, absolute paths, repeated or encoded separators, sibling directories sharing a prefix, symbolic links, NUL or odd characters, any mount prefix - StaticFiles only responds with, and only opens, "
        "regular files whose real location is inside one of the configured directories; with follow_symlink it also follows links that lie inside them, but the path itself still cannot leave. Everything else is 404 (or a redirect or the 404 page of html mode), "
        "never a 500, and never reveals whether or what something outside exists; every regular file inside whose path is requested is served."
    ),
    over=["inputs", "configurations"],
    quant="every request path, directory layout with links in and out, follow_symlink and html setting, one or several directories, relative or absolute, mount nesting",
    why="tests try a handful of traversal strings on one layout",
    files=["starlette/staticfiles.py"],
    mechanism=[("get_path / lookup_path", "starlette/staticfiles.py:StaticFiles")],
)
TECH = "runtime monitoring: adversarial request paths against marked secret files, with an audit hook on file opens and a realpath oracle"
RULE = "each case is a server configuration and 25 hostile or valid paths; non-trivial when responses were compared with the containment model"
LEVEL_NOTE = "held on the generated paths and layouts; all files live in a scratch directory"
BUDGET = {"quick": (60000, 12), "thorough": (600000, 150)}
REQUIRED = ("requests", "inside files served", "escapes refused", "file opens audited", "links out refused", "links followed", "links that lead to themselves")

OPENED: list = []
ROOT = [None]

LAYOUT = {
    "srv/a.txt": "inside-a", "srv/sub/b.txt": "inside-b", "srv/sub/index.html": "inside-index", "srv/sub/deep/c.txt": "inside-c", "srv/.hidden": "inside-h", "srv/...": "inside-dots", "srv/ok..txt": "inside-ok", "srv/a b.txt": "inside-sp",
    "srv/etc/passwd": "inside-passwd", "srv/404.html": "inside-404", "srv/back\\slash": "inside-bs", "srv/index.html": "inside-top",
    "srv2/a.txt": "inside2-a", "srv2/only2.txt": "inside2-only", "srv2/sub/z.txt": "inside2-z",
    "srv-secret/s.txt": "SECRET-sibling", "srvx": "SECRET-srvx", "secret.txt": "SECRET-up", "out/s.txt": "SECRET-out", "out/index.html": "SECRET-index", "sr/s.txt": "SECRET-sr", "a.txt": "SECRET-a", "404.html": "SECRET-404", "SRV/s.txt": "SECRET-case", "Srv/a.txt": "SECRET-case-a", "srv/li/x.txt": "inside-li", "srv/loops/x.txt": "inside-loops", "srv/sub/li/x.txt": "inside-sub-li",
}
LINKS = {"srv/l-in": "sub/b.txt", "srv/l-dir-in": "sub", "srv/l-out": "../secret.txt", "srv/l-dir-out": "../out", "srv/l-sib": "../srv-secret", "srv/sub/l-up": "../..", "srv/l-broken": "nope", "srv/l-srv2": "../srv2", "srv/l-abs": None, "srv/l-loop": "l-loop", "srv/l-ring": "sub/l-ring", "srv/sub/l-ring": "../l-ring", "srv/only2.txt": "only2.txt", "srv/loops/index.html": "index.html", "srv/li/index.html": "../../secret.txt", "srv/sub/li/index.html": "../../../out/index.html"}
PIECES = ["..", ".", "", "a.txt", "sub", "b.txt", "deep", "c.txt", "secret.txt", "out", "s.txt", "srv", "srv-secret", "srvx", "srv2", "etc", "passwd", "l-in", "l-dir-in", "l-out", "l-dir-out", "l-sib", "l-up", "l-broken", "l-srv2", "l-abs", "index.html", "only2.txt", ".hidden", "...", "ok..txt",
          "..\\", "..\\secret.txt", "%2e%2e", "%2e%2e%2fsecret.txt", "..%2f", "\x00", "..\x00", "a.txt\x00", "\uff0e\uff0e", "..;", "~root", "x" * 300, "\ud800".encode("utf-8", "replace").decode(), " ", ".. ", "...", "a b.txt", "back\\slash", "404.html", "C:", "\n", "sr", "SRV", "Srv", "li", "li/", "sub/li/", "l-loop", "l-ring", "loops", "loops/"]


def _audit(event, args):
    if event == "open" and ROOT[0] is not None:
        try:
            p = os.fspath(args[0])
        except TypeError:
            return
        if isinstance(p, str) and p.startswith(ROOT[0]):
            OPENED.append(p)


def worker_setup(mon):
    root = os.path.realpath(os.path.join(mon.tmp, "site"))
    for nm, text in LAYOUT.items():
        p = os.path.join(root, nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    for nm, target in LINKS.items():
        os.symlink(target or os.path.join(root, "secret.txt"), os.path.join(root, nm))
    os.symlink("srv", os.path.join(root, "srv-link"))
    mon.root = root
    mon.pkg = f"vpcontain{os.getpid()}"
    os.makedirs(os.path.join(root, mon.pkg))
    open(os.path.join(root, mon.pkg, "__init__.py"), "w").close()
    sys.path.insert(0, root)
    os.chdir(root)
    sys.addaudithook(_audit)


def fixed(tier):
    out = []
    paths = ["/" + p for p in ("../secret.txt", "sub/../../secret.txt", "sub/../a.txt", "../srv/a.txt", "../srv-secret/s.txt", "../srvx", "..", "../", "../..", "/../secret.txt", "//secret.txt", "///etc/passwd", "/etc/passwd", "etc/passwd", "....//secret.txt", "l-out", "l-dir-out/s.txt", "l-dir-out/", "l-dir-out", "l-sib/s.txt", "l-in", "l-dir-in/b.txt", "l-dir-in/deep/c.txt",
                                 "sub/l-up/secret.txt", "sub/l-up/srv/a.txt", "l-srv2/a.txt", "l-abs", "l-broken", "../srv2/a.txt", "../srv2/only2.txt", "only2.txt", "..\\secret.txt", "%2e%2e/secret.txt", "..%2fsecret.txt", "\x00", "a.txt\x00", "..\x00/secret.txt", "x" * 300, "x/" * 3000, "", ".", "./a.txt", "a.txt/", "a.txt/.", "a.txt/..", "a.txt/../../secret.txt", "sub/./b.txt", "sub//b.txt",
                                 ".hidden", "...", ".../", "ok..txt", "back\\slash", "srv/a.txt", "../sr/s.txt", "~", "~root/.profile", "../SRV/s.txt", "l-loop", "l-loop/a.txt", "l-ring", "sub/l-ring", "loops/", "loops", "loops/index.html", "../Srv/a.txt", "../SRV", "sub/../../Srv/a.txt", "li/", "li", "li/index.html", "sub/li/", "l-dir-in/li/", "A.txt", "SUB/b.txt")]
    for follow in (False, True):
        for html in (False, True):
            for d in ("abs", "rel", "trail", "link", "dots", "two", "path"):
                for mount in ("/", "/static", "/a/b"):
                    out.append(dict(follow=follow, html=html, dir=d, mount=mount, paths=paths, root="", absolute=True))
    return out


def gen(rng, tier):
    paths = []
    for _ in range(25):
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        p = "/".join(rng.choice(PIECES) for _ in range(n))
        r = rng.random()
        if r < 0.3:
            p = "../" * rng.randrange(1, 5) + p
        elif r < 0.4:
            p = rng.choice(["sub/", "l-dir-in/", "etc/", "sub/deep/", "l-dir-out/"]) + "../" * rng.randrange(1, 5) + p
        elif r < 0.5:
            p = "/" * rng.randrange(1, 4) + p
        elif r < 0.6:
            p = rng.choice([x for x in LAYOUT if x.startswith("srv/")])[4:]
        paths.append("/" + p)
    return dict(follow=rng.random() < 0.4, html=rng.random() < 0.4, dir=rng.choice(["abs", "rel", "trail", "link", "dots", "two", "two", "path"]), mount=rng.choice(["/", "/static", "/a/b"]), paths=paths, root=rng.choice(["", "", "/r"]), absolute=rng.random() < 0.2)


def expected(case, dirs, path):
    """-> absolute path of the file that may be served, or None"""
    parts = []
    for c in path.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if parts and parts[-1] != "..":
                parts.pop()
            else:
                parts.append("..")
            continue
        parts.append(c)
    if any("\x00" in c for c in parts) or any(len(c.encode()) > 255 for c in parts) or len("/".join(parts)) > 3500:
        return None, None
    for d in dirs:
        p = os.path.join(d, *parts) if parts else d
        lexical = os.path.abspath(p)
        if case["follow"]:
            dd = os.path.abspath(d)
            if not (lexical == dd or lexical.startswith(dd + "/")):
                continue
            target = lexical
        else:
            dd = os.path.realpath(d)
            target = os.path.realpath(p)
            if not (target == dd or target.startswith(dd + "/")):
                continue
        if os.path.isdir(target):
            return "dir", target
        if os.path.isfile(target):
            return "file", target
    return None, None


def run(case, mon):
    root = mon.root
    d = case["dir"]
    import pathlib

    directory = {"abs": root + "/srv", "rel": "srv", "trail": root + "/srv/", "link": root + "/srv-link", "dots": root + "/out/../srv", "two": root + "/srv", "path": pathlib.Path(root) / "srv"}[d]
    app = StaticFiles(directory=directory, packages=[(mon.pkg, "../srv2")] if d == "two" else None, html=case["html"], follow_symlink=case["follow"])
    dirs = [os.fspath(directory)]
    if d == "two":
        dirs.append(root + "/srv2")
    mount = case["mount"]
    star = Starlette(routes=[Mount("/a", routes=[Mount("/b", app=app)])] if mount == "/a/b" else [Mount(mount, app=app)])
    prefix = case["root"] + ("" if mount == "/" else mount)
    outcome = []
    for path in case["paths"]:
        for absolute in ([False, True] if case["absolute"] else [False]):
            if absolute:
                # an attacker who knows where the secrets are
                if "x" * 100 in path or "\x00" in path:
                    continue
                path2 = "/" + root + path
            else:
                path2 = path
            OPENED.clear()
            ROOT[0] = root
            try:
                t = drive(star, http_scope("GET", prefix + path2, root_path=case["root"]))
            finally:
                ROOT[0] = None
            mon.n("requests")
            what = f"GET {path2!r} (directory {d}, follow_symlink {case['follow']}, html {case['html']}, mount {mount})"
            if t.exc:
                mon.fail("server-error", f"{what}: raised {t.exc!r}")
                continue
            mon.ok(t.status in (200, 404, 307), "status", f"{what}: status {t.status}")
            mon.ok(b"SECRET" not in t.body or case["follow"], "secret-served", f"{what}: the response carries {t.body!r}")
            for p in OPENED:
                mon.n("file opens audited")
                real = os.path.realpath(p)
                if case["follow"]:
                    inside = any(os.path.abspath(p).startswith(os.path.abspath(x) + "/") for x in dirs)
                else:
                    inside = any(real.startswith(os.path.realpath(x) + "/") for x in dirs)
                mon.ok(inside, "opened-outside", f"{what}: opened {p!r} (really {real!r}), outside {dirs}")
            if "l-loop" in path2 or "l-ring" in path2 or "loops" in path2:
                mon.n("links that lead to themselves")
            kind, target = expected(case, dirs, path2)
            outcome.append((t.status, kind))
            page = None
            if case["html"]:
                k404, t404 = expected(case, dirs, "404.html")
                page = open(t404, "rb").read() if k404 == "file" else None
            if kind == "file":
                with open(target, "rb") as f:
                    want = f.read()
                mon.n("inside files served")
                if case["follow"] and os.path.realpath(target) != target:
                    mon.n("links followed")
                mon.eq((t.status, t.body), (200, want), "inside-not-served", f"{what}: status and body")
            elif kind == "dir" and case["html"]:
                k2, t2 = expected(case, dirs, path2 + "/index.html")
                if k2 == "file":
                    if t.status == 307:
                        mon.ok(not path2.endswith("/"), "redirect", f"{what}: redirected to {t.header('location')}")
                    else:
                        mon.eq((t.status, t.body), (200, open(t2, "rb").read()), "index", f"{what}: status and body")
                else:
                    mon.eq((t.status, page is None or t.body == page), (404, True), "dir-without-index", f"{what}: {t.body[:60]!r}")
            else:
                mon.n("escapes refused")
                if "l-out" in path2 or "l-dir-out" in path2 or "l-sib" in path2 or "l-abs" in path2:
                    mon.n("links out refused")
                mon.eq(t.status, 404, "not-404", f"{what}: status ({t.body[:60]!r})")
                mon.ok(t.body in (page, b"Not Found"), "404-body", f"{what}: body {t.body[:80]!r}")
    mon.nontrivial(case["dir"], case["follow"], case["html"], outcome)
