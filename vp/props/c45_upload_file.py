from __future__ import annotations

import io
import os
import random
import tempfile

import anyio

from starlette.applications import Starlette
from starlette.datastructures import Headers, UploadFile
from starlette.requests import Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from vp import gens, tracking
from vp.asgi import chunking, drive, http_scope, no_leaks, run_async, split_body

ID = "C45"
PROP = dict(
    title="An UploadFile reads, writes, seeks and closes like the file it holds",
    statement=(
        "For every sequence of read, write, seek and close, on uploads received in a form or created directly, held in memory, spooled to disk at any threshold or on disk, an UploadFile returns exactly the bytes a plain file would, at the same position, whether or not an operation makes it roll over to disk; several uploads in use at once never mix. "
        "size is the number of bytes received, plus those written, and stays None when it was not known; filename, headers and content_type are those of the part. Errors of the file (closed, read-only, full) are raised to the caller, and close() closes the file and can be repeated."
    ),
    over=["inputs", "histories", "schedules"],
    quant="every operation sequence and chunk size around the spool limit, file kind, number of uploads in use at once, backend",
    why="tests write and read a handful of bytes once, never around the limit where the file moves to disk",
    files=["starlette/datastructures.py", "starlette/formparsers.py", "starlette/concurrency.py"],
    mechanism=[("operations", "starlette/datastructures.py:UploadFile"), ("received uploads", "starlette/formparsers.py:MultiPartParser")],
)
TECH = "runtime monitoring: every operation mirrored on an in-memory reference file and compared (result, position, size, rollover) as it happens"
RULE = "each case is up to 4 uploads and an interleaved sequence of up to 40 operations; non-trivial when results were compared"
LEVEL_NOTE = "held on the generated operation sequences"
BUDGET = {"quick": (40000, 7), "thorough": (400000, 80)}
REQUIRED = ("operations compared", "reads", "writes", "seeks", "rollovers", "closes", "received uploads", "large uploads", "errors raised", "unknown sizes", "concurrent", "sizes compared", "content types")

KINDS = ["spooled", "spooled", "spooled", "bytesio", "disk", "form", "form"]


class Full(io.BytesIO):
    def write(self, b):
        raise OSError(28, "No space left on device")


class ReadOnly(io.BytesIO):
    def write(self, b):
        raise io.UnsupportedOperation("not writable")


def ops_of(rng, limit, n):
    out = []
    for _ in range(n):
        o = rng.choice(["write", "write", "write", "read", "read", "seek", "seek-end", "seek0", "read-all"])
        size = rng.choice([0, 1, 2, 7, limit - 1, limit, limit + 1, limit // 2, rng.randrange(0, 2 * limit + 3)])
        out.append([o, max(size, 0)])
    return out


def fixed(tier):
    out = []
    i = 0
    for kind in ("spooled", "bytesio", "disk", "form"):
        for limit in (1, 2, 10, 100):
            for first in (limit - 1, limit, limit + 1):
                for second in (0, 1, 2):
                    i += 1
                    out.append(dict(files=[dict(kind=kind, limit=limit, size=[0, None][i % 2], init=0, ctype="text/plain", ops=[["write", first], ["write", second], ["seek", first // 2], ["read", 2], ["read-all", 0], ["seek0", 0], ["write", 1], ["read-all", 0]])], conc=False, close=[1, 2, 0][i % 3], seed=i, chunk="few", backend=["asyncio", "trio"][i % 2]))
    for kind in ("full", "readonly", "closed"):
        for n in range(4):
            i += 1
            out.append(dict(files=[dict(kind=kind, limit=10, size=0, init=3, ctype=None, ops=[["read", 1], ["write", n], ["seek0", 0], ["read-all", 0]])], conc=False, close=1, seed=i, chunk="few", backend=["asyncio", "trio"][i % 2]))
    M = 1024 * 1024
    for size in (M - 1, M, M + 1, 3 * M):
        i += 1
        out.append(dict(files=[dict(kind="form", limit=M, size=0, init=size, ctype="a/b", ops=[["read", 10], ["read-all", 0], ["write", 5], ["seek", M - 2], ["read", 9], ["seek0", 0], ["read-all", 0]])], conc=False, close=1, seed=i, chunk="blocks", backend=["asyncio", "trio"][i % 2]))
        out.append(dict(files=[dict(kind="form", limit=M, size=0, init=n, ctype="a/b", ops=[["read", 10], ["seek-end", 0], ["write", 2], ["seek", n - 3 if n > 3 else 0], ["read-all", 0]]) for n in (size, 10, M - 1)], conc=True, close=1, seed=i, chunk="blocks", backend=["asyncio", "trio"][i % 2]))
    return out


def gen(rng, tier):
    fs = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        kind = rng.choice(KINDS)
        limit = rng.choice([1, 2, 5, 16, 100, 1000])
        fs.append(dict(kind=kind, limit=limit, size=rng.choice([0, None]), init=rng.choice([0, 1, limit, limit + 1, rng.randrange(0, 300)]), ctype=rng.choice([None, "text/plain", "application/x-é", "image/png; a=b"]), ops=ops_of(rng, limit, rng.randrange(1, 40 // 2))))
    if rng.random() < 0.03:
        fs[0].update(kind=rng.choice(["full", "readonly", "closed"]))
    if rng.random() < 0.02:
        M = 1024 * 1024
        fs[0].update(kind="form", limit=M, init=M + rng.randrange(-2, 3))
    return dict(files=fs, conc=rng.random() < 0.5, close=rng.choice([0, 1, 1, 2]), seed=rng.randrange(10**6), chunk=rng.choice(["one", "few", "blocks"]), backend=gens.backend(rng))


def payload(n, salt):
    return random.Random(salt).randbytes(n) if n < 5000 else (random.Random(salt).randbytes(997) * (n // 997 + 1))[:n]


def run(case, mon):
    tracking.reset()
    ups = []  # (spec, UploadFile, reference)
    forms = [f for f in case["files"] if f["kind"] == "form"]

    def build_direct():
        for k, f in enumerate(case["files"]):
            if f["kind"] == "form":
                continue
            init = payload(f["init"], k)
            hs = Headers(raw=[(b"content-type", f["ctype"].encode("latin-1"))]) if f["ctype"] is not None else None
            if f["kind"] == "spooled":
                fo = tempfile.SpooledTemporaryFile(max_size=f["limit"])
            elif f["kind"] == "disk":
                fo = open(os.path.join(mon.tmp, f"up{k}"), "w+b")
            elif f["kind"] == "full":
                fo = Full(init)
            elif f["kind"] == "readonly":
                fo = ReadOnly(init)
            else:
                fo = io.BytesIO()
            if f["kind"] not in ("full", "readonly"):
                fo.write(init)
                fo.seek(0)
            if f["kind"] == "closed":
                fo.close()
            size = None if f["size"] is None else f["init"]
            up = UploadFile(fo, size=size, filename=f"n{k}", headers=hs) if hs is not None else UploadFile(fo, size=size, filename=f"n{k}")
            ups.append((k, f, up, io.BytesIO(init), size))

    async def work(k, f, up, ref, size):
        mon.eq(up.filename, f"n{k}", "filename", "filename of an upload")
        mon.eq(up.content_type, f["ctype"] if f["ctype"] is None or f["kind"] != "form" else f["ctype"].encode("utf-8").decode("latin-1"), "content-type", "content type of the part")
        mon.n("content types")
        if f["kind"] == "form":
            mon.n("received uploads")
            if f["init"] > 1024 * 1024:
                mon.n("large uploads")
            mon.ok(up.headers.get("content-disposition", "").startswith("form-data") and up.headers.get("x-part") == f"p{k}", "headers", f"headers of the part: {up.headers}")
        total = size
        mon.eq(up.size, total, "size", "size before any operation")
        if total is None:
            mon.n("unknown sizes")
        bad = f["kind"] in ("full", "readonly", "closed")
        for j, (op, n) in enumerate(f["ops"]):
            if case["conc"]:
                await anyio.sleep(0)
            here = f"operation {j} of {f['ops'][:j + 1]} on a {f['kind']} upload (limit {f['limit']}, {f['init']} bytes)"
            mon.n("operations compared")
            try:
                if op == "write":
                    data = payload(n, (k, j).__hash__())
                    got = await up.write(data)
                    ref.write(data)
                    if total is not None:
                        total += n
                    mon.n("writes")
                    want = None
                elif op in ("read", "read-all"):
                    got = await (up.read(n) if op == "read" else (up.read() if n % 2 else up.read(-1)))
                    want = ref.read(n) if op == "read" else ref.read()
                    mon.n("reads")
                else:
                    to = 0 if op == "seek0" else (len(ref.getvalue()) if op == "seek-end" else min(n, len(ref.getvalue())))
                    got = await up.seek(to)
                    ref.seek(to)
                    want = None
                    mon.n("seeks")
            except (OSError, ValueError) as exc:
                if bad and (op == "write" or f["kind"] == "closed"):
                    mon.n("errors raised")
                    mon.ok(f["kind"] != "full" or isinstance(exc, OSError) and exc.errno == 28, "error", f"{here}: {exc!r}")
                    mon.eq(up.size, total, "size", f"{here}: {exc!r}")
                    continue
                mon.fail("operation-error", f"{here}: {exc!r}")
                return
            if bad and (op == "write" and f["kind"] != "closed" or f["kind"] == "closed"):
                mon.fail("error-lost", f"{here}: the error of the file was not raised")
                return
            if op in ("read", "read-all") and not mon.ok(got == want, "read", f"{here}: returned {len(got)} bytes {got[:30]!r}, a file returns {len(want)} bytes {want[:30]!r}"):
                return
            if not bad:
                mon.eq(up.file.tell(), ref.tell(), "position", here)
                mon.eq(up.size, total, "size", here)
                mon.n("sizes compared")
        if bad:
            return
        await up.seek(0)
        mon.ok(await up.read() == ref.getvalue(), "content", f"content of a {f['kind']} upload after {f['ops']}")
        if f["kind"] in ("spooled", "form") and up.file._rolled:
            mon.n("rollovers")
        mon.ok(not up.file.closed, "closed-early", f"a {f['kind']} upload was closed before close()")
        for _ in range(case["close"]):
            await up.close()
            mon.n("closes")
            mon.ok(up.file.closed, "close", f"close() left the {f['kind']} file open")
        if case["close"]:
            try:
                await up.read()
                mon.fail("closed-read", "reading a closed upload succeeded")
            except ValueError:
                mon.n("errors raised")
        mon.nontrivial(f["kind"], f["limit"], len(f["ops"]), f["init"])

    async def all_of():
        if case["conc"] and len(ups) > 1:
            mon.n("concurrent")
            async with anyio.create_task_group() as tg:
                for u in ups:
                    tg.start_soon(work, *u)
        else:
            for u in ups:
                await work(*u)

    build_direct()
    try:
        if not forms:
            run_async(case["backend"], case["seed"], all_of)
        else:
            body = b""
            for k, f in enumerate(case["files"]):
                if f["kind"] != "form":
                    continue
                body += b'--b\r\nContent-Disposition: form-data; name="f%d"; filename="n%d"\r\nX-Part: p%d\r\n' % (k, k, k)
                if f["ctype"] is not None:
                    body += b"Content-Type: " + f["ctype"].encode("utf-8") + b"\r\n"
                body += b"\r\n" + payload(f["init"], k) + b"\r\n"
            body += b"--b--\r\n"

            async def endpoint(request):
                form = await request.form()
                for k, f in enumerate(case["files"]):
                    if f["kind"] == "form":
                        up = form[f"f{k}"]
                        ups.append((k, f, up, io.BytesIO(payload(f["init"], k)), f["init"]))
                await all_of()
                await form.close()
                mon.ok(all(u[2].file.closed for u in ups if u[1]["kind"] == "form"), "form-close", "closing the form left uploads open")
                return PlainTextResponse("done")

            t = drive(Starlette(routes=[Route("/", endpoint, methods=["POST"])]), http_scope("POST", headers=[("content-type", "multipart/form-data; boundary=b")]), chunks=split_body(body, chunking(random.Random(case["seed"]), len(body), case["chunk"])), backend=case["backend"], seed=case["seed"])
            if t.exc:
                raise t.exc
            mon.ok(t.status == 200 and t.body == b"done", "request", f"{t.status} {t.body!r}")
            no_leaks(t, mon)
    finally:
        for u in ups:
            try:
                u[2].file.close()
            except Exception:
                pass
        tracking.reset()
