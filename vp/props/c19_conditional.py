from __future__ import annotations

import os
import shutil
import time
from email.utils import formatdate

from starlette.applications import Starlette
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles

from vp import gens
from vp.asgi import drive, http_protocol, http_scope
from vp.engine import mk

ID = "C19"
PROP = dict(
    title="Conditional static requests get 304 exactly when the client is up to date",
    statement=(
        "For every history of file versions and every If-None-Match / If-Modified-Since, StaticFiles answers a GET or HEAD with 304 exactly when the list in If-None-Match names the file's current ETag (compared weakly), or, only if there is no If-None-Match, "
        "the file was not modified after the (valid, in any HTTP date format) If-Modified-Since date; otherwise it answers in full. A 304 has no body, carries the current ETag and neither Content-Length nor Content-Type; "
        "invalid conditions are ignored without error, revalidating with what the last response said gives 304 until the file's size or modification time changes and the new content afterwards, and misses stay 404."
    ),
    over=["inputs", "histories"],
    quant="every file history, list of entity tags, date in any format before, at or after the modification time, header combination and method",
    why="tests try one exact match per header",
    files=["starlette/staticfiles.py", "starlette/responses.py"],
    mechanism=[("is_not_modified / NotModifiedResponse", "starlette/staticfiles.py:StaticFiles"), ("set_stat_headers", "starlette/responses.py:FileResponse")],
)
TECH = "runtime monitoring: revalidation histories checked against a reference of RFC 9110 preconditions and a model of the file versions"
RULE = "each case is a history of file versions and conditional requests; non-trivial when 200/304 decisions were compared with the reference"
LEVEL_NOTE = "held on the generated histories; '*' in If-None-Match (which StaticFiles answers in full) is left out"
BUDGET = {"quick": (60000, 9), "thorough": (400000, 120)}
REQUIRED = ("requests", "304 by etag", "304 by date", "200 although a date would match", "invalid dates", "stale etag", "changed after revalidation")

DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
BASE = 1_600_000_000
INVALID = ["", "junk", "yesterday", "0", "1600000000", "Mon, 99 Foo 2020 99:99:99 GMT", "2020", "GMT", ",", "Sun, 06 Nov", "é"]


def date(fmt, ts):
    t = time.gmtime(ts)
    if fmt == "imf":
        return formatdate(ts, usegmt=True)
    if fmt == "850":
        return f"{LDAYS[t.tm_wday]}, {t.tm_mday:02}-{MONTHS[t.tm_mon - 1]}-{t.tm_year % 100:02} {t.tm_hour:02}:{t.tm_min:02}:{t.tm_sec:02} GMT"
    return f"{DAYS[t.tm_wday]} {MONTHS[t.tm_mon - 1]} {t.tm_mday:2} {t.tm_hour:02}:{t.tm_min:02}:{t.tm_sec:02} {t.tm_year}"


OFFS = [0, 0, 1, -1, 59, -59, 60, -60, 3599, -3600, 86399, -86400, 86400 * 31, -86400 * 31, 86400 * 366, -86400 * 366, 10**8, -(10**8)]


def fixed(tier):
    out = []
    for mt in (BASE, BASE + 0.75, 951782400, 1582934400, 1609459199):
        ops = [["req", "GET", None, None]]
        for m in ("GET", "HEAD"):
            for o in OFFS:
                for f in ("imf", "850", "asc"):
                    ops.append(["req", m, None, [f, o]])
            for tags in (["CUR"], ["WCUR"], ["x", "CUR"], ["CUR", "x"], ["x", "WCUR", "y"], ["x"], ["SUB"], ["SUP"], ["WSUP"], [], ["EMPTY"], ["COMMA", "CUR"], ["UPPER"], ["TRUNC"], ["x"] * 60 + ["CUR"], ["SUP", "y"] * 100 + ["WCUR", "x"], ["TRUNC"] * 90):
                for sp in (",", ", ", " , "):
                    ops.append(["req", m, [tags, sp], None])
                ops.append(["req", m, [tags, ", "], ["imf", 0]])
                ops.append(["req", m, [tags, ", "], ["imf", 86400]])
                ops.append(["req", m, [tags, ", "], ["imf", -86400]])
            for d in INVALID:
                ops.append(["req", m, None, ["raw", d]])
                ops.append(["req", m, [["x"], ","], ["raw", d]])
                ops.append(["req", m, [["CUR"], ","], ["raw", d]])
        out.append(dict(html=False, mtime=mt, data="hello", ops=ops))
    for change in ([["size", 1]], [["mtime", 1]], [["mtime", -1]], [["mtime", 0.5]], [["mtime", 0.0003]], [["mtime", 0.000002]], [["mtime", -0.00001]], [["mtime", 86400]], [["size", -1]], [["size", 1], ["mtime", -1000]], [["both", 3]]):
        for html in (False, True):
            ops = [["req", "GET", None, None], ["reval", "GET", "both"], ["reval", "GET", "etag"], ["reval", "HEAD", "date"]]
            for c in change:
                ops += [["change", *c], ["reval", "GET", "etag"], ["reval", "GET", "both"], ["reval", "HEAD", "both"], ["req", "GET", [["OLD"], ","], None], ["req", "GET", [["OLD", "CUR"], ", "], None], ["remember"], ["reval", "GET", "both"]]
            ops += [["delete"], ["reval", "GET", "both"], ["restore"], ["reval", "GET", "etag"]]
            out.append(dict(html=html, mtime=BASE, data="hello", ops=ops))
    return out


def gen(rng, tier):
    ops = [["req", "GET", None, None]]
    for _ in range(rng.randrange(8, 30)):
        r = rng.random()
        m = rng.choice(["GET", "GET", "HEAD"])
        if r < 0.3:
            ops.append(["reval", m, rng.choice(["both", "etag", "date"])])
        elif r < 0.42:
            ops.append(["change", rng.choice(["size", "mtime", "both"]), rng.choice([1, -1, 2, 0.25, 0.0004, 0.000003, -0.00002, 60, 3600, -3600, 100000])])
        elif r < 0.5:
            ops.append(["remember"])
        elif r < 0.53:
            ops.append(["delete"])
        elif r < 0.57:
            ops.append(["restore"])
        else:
            inm = ims = None
            if rng.random() < 0.6:
                inm = [[rng.choice(["CUR", "WCUR", "OLD", "OLD", "x", "y", "SUB", "SUP", "WSUP", "COMMA", "UPPER", "TRUNC", "EMPTY"]) for _ in range(rng.randrange(1, 5) if rng.random() < 0.95 else rng.randrange(20, 300))], rng.choice([",", ", ", " ,  "])]
            if rng.random() < 0.6:
                ims = [rng.choice(["imf", "850", "asc"]), rng.choice(OFFS)] if rng.random() < 0.8 else ["raw", rng.choice(INVALID)]
            ops.append(["req", m, inm, ims])
    return dict(html=rng.random() < 0.2, mtime=rng.choice([BASE, BASE + 0.5, 1000000000, 951782400.25, 1700000000, 4000000000 - 2**31]), data=["rnd", rng.randrange(99), rng.choice([0, 1, 5, 1000, 70000])], ops=ops)


def run(case, mon):
    root = os.path.join(mon.tmp, "c19")
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.makedirs(root)
    path = os.path.join(root, "f.txt")
    cur = {"mtime": case["mtime"], "data": mk(case["data"]), "exists": True}

    def put():
        with open(path, "wb") as f:
            f.write(cur["data"])
        os.utime(path, (cur["mtime"], cur["mtime"]))
        cur["exists"] = True

    put()
    if case["html"]:
        with open(os.path.join(root, "404.html"), "w") as f:
            f.write("nope")
        os.utime(os.path.join(root, "404.html"), (1000, 1000))
    app = Starlette(routes=[Mount("/s", app=StaticFiles(directory=root, html=case["html"]))])
    etags = {}  # version -> etag
    remembered = None
    log = []

    def version():
        return (cur["mtime"], len(cur["data"]))

    def send(method, hs, what):
        t = drive(app, http_scope(method, "/s/f.txt", hs))
        mon.n("requests")
        if t.exc:
            mon.fail("server-error", f"{what}: raised {t.exc!r}")
            return None
        http_protocol(t, mon, method=method)
        return t

    def judge(t, method, not_modified, what):
        if t is None:
            return
        if not cur["exists"]:
            mon.eq(t.status, 404, "missing", what)
            return
        etag = etags.get(version())
        if not_modified:
            mon.eq((t.status, t.body), (304, b""), "not-modified-expected", what)
            if t.status == 304:
                if etag is not None:
                    mon.eq(t.header("etag"), etag, "304-etag", what)
                mon.eq((t.header("content-length"), t.header("content-type")), (None, None), "304-headers", what)
        else:
            mon.eq((t.status, t.body), (200, cur["data"] if method == "GET" else b""), "full-response-expected", what)
            if t.status == 200:
                mon.eq(t.header("content-length"), str(len(cur["data"])), "length", what)
        log.append(t.status)

    def learn():
        if cur["exists"] and version() not in etags:
            t = send("GET", [], "plain GET")
            if t is None:
                return
            judge(t, "GET", False, "plain GET")
            e = t.header("etag")
            for v, other in etags.items():
                if v != version():
                    mon.ok(e != other, "etag-collision", f"versions {v} and {version()} have the same ETag {e}")
            etags[version()] = e

    for op in case["ops"]:
        if op[0] == "change":
            if op[1] in ("size", "both"):
                n = int(abs(op[2])) % 50 + 1
                cur["data"] = cur["data"] + b"+" * n if op[2] > 0 or len(cur["data"]) < n else cur["data"][:-n]
            if op[1] in ("mtime", "both"):
                cur["mtime"] = max(1, cur["mtime"] + op[2])
            if cur["exists"]:
                put()
            continue
        if op[0] == "delete":
            if cur["exists"]:
                os.unlink(path)
            cur["exists"] = False
            continue
        if op[0] == "restore":
            put()
            continue
        learn()
        if op[0] == "remember":
            if cur["exists"]:
                remembered = version()
            continue
        if op[0] == "reval":
            if remembered is None:
                if not cur["exists"]:
                    continue
                remembered = version()
            e = etags[remembered]
            d = formatdate(int(remembered[0]), usegmt=True)
            same = remembered == version()
            hs = []
            if op[2] in ("both", "etag"):
                hs.append(("if-none-match", e))
            if op[2] in ("both", "date"):
                hs.append(("if-modified-since", d))
            if op[2] == "date":
                nm = int(cur["mtime"]) <= int(remembered[0])
            else:
                nm = same
                if not same:
                    mon.n("changed after revalidation")
            what = f"{op[1]} revalidating version {remembered} with {hs}, current version {version()}"
            judge(send(op[1], hs, what), op[1], nm, what)
            continue
        _, method, inm, ims = op
        etag = etags.get(version(), '"none"')
        core = etag.removeprefix("W/").strip('"')
        old = [x for v, x in etags.items() if v != version()]
        hs = []
        nm = False
        date_match = False
        if ims is not None:
            if ims[0] == "raw":
                hs.append(("if-modified-since", ims[1]))
                mon.n("invalid dates")
            else:
                ts = int(cur["mtime"]) + ims[1]
                if ts < 0 or not (1971 <= time.gmtime(ts).tm_year <= 2030):
                    continue
                hs.append(("if-modified-since", date(ims[0], ts)))
                date_match = ims[1] >= 0
        if inm is not None:
            vals = []
            for x in inm[0]:
                o = old[0] if old else '"old"'
                vals.append({"CUR": etag, "WCUR": 'W/"' + core + '"', "OLD": o, "SUB": '"' + core[1:] + '"', "SUP": '"' + core + '0"', "WSUP": 'W/"x' + core + '"', "EMPTY": '""', "COMMA": '"a, b"', "UPPER": '"' + core.upper() + '"', "TRUNC": '"' + core[:-1] + '"'}.get(x, f'"{x}"'))
                if x in ("CUR", "WCUR") or x == "UPPER" and core.upper() == core:
                    nm = True
                if x == "OLD":
                    mon.n("stale etag")
            hs.append(("if-none-match", inm[1].join(vals)))
            if nm and cur["exists"]:
                mon.n("304 by etag")
            if not nm and date_match:
                mon.n("200 although a date would match")
        else:
            nm = date_match
            if nm and cur["exists"]:
                mon.n("304 by date")
        if len(core) == 0:
            continue
        what = f"{method} with {hs}; the file was modified at {date('imf', int(cur['mtime']))} ({cur['mtime']}), ETag {etag}"
        judge(send(method, hs, what), method, nm, what)
    mon.nontrivial(case["html"], log)
