from __future__ import annotations

import random

import anyio

from starlette.applications import Starlette
from starlette.formparsers import MultiPartException
from starlette.requests import ClientDisconnect, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from vp import gens, tracking
from vp.asgi import chunking, drive, http_scope, no_leaks, split_body

ID = "C11"
PROP = dict(
    title="Multipart limits and malformed or aborted uploads fail cleanly",
    statement=(
        "form() accepts a multipart body exactly when it has at most max_files files, at most max_fields fields and no field longer than max_part_size bytes (defaults 1000, 1000 and 1 MiB; files are not limited in size), "
        "whatever the order, sizes and message division, and an excess is refused as soon as it has arrived, without reading the rest of the body. Anything refused - over a limit, a missing boundary or field name, "
        "malformed syntax - is the multipart exception, which inside an application is a 400 response, never another exception or a 500. Whenever parsing does not complete, be it refusal, "
        "client disconnect or cancellation, every temporary file created for it is closed."
    ),
    over=["inputs", "fault_sequences", "schedules"],
    quant="every limit and count around it, part size around max_part_size, malformed or mutated body, abort point, message division",
    why="tests check one excess per limit with one division and no abort; leaks of temporary files are invisible to them",
    files=["starlette/formparsers.py", "starlette/requests.py"],
    mechanism=[("limits", "starlette/formparsers.py:MultiPartParser.on_headers_finished/on_part_data"), ("cleanup", "starlette/formparsers.py:MultiPartParser.parse"), ("400 mapping", "starlette/requests.py:Request._get_form")],
)
TECH = "runtime monitoring: limit model as oracle, tracked temporary files, delivery log, fault injection (mutation, disconnect, cancellation)"
RULE = "each case is a multipart body with counts and sizes around the limits, or a mutated or truncated one, a message division and an abort point; non-trivial when acceptance, refusal or abort was decided"
LEVEL_NOTE = "held on the generated bodies and abort points"
BUDGET = {"quick": (80000, 14), "thorough": (1200000, 240)}
REQUIRED = ("accepted at limit", "refused files", "refused fields", "refused part size", "malformed refused", "aborted by disconnect", "aborted by cancellation", "files closed on failure", "early refusals")

B = "boundary"


def fixed(tier):
    out = []
    for kind, n in (("files", 1000), ("files", 1001), ("fields", 1000), ("fields", 1001)):
        for via in ("app", "raw"):
            out.append(dict(mode="limit", parts=[["F" if kind == "files" else "f", 1]] * n, limits={}, chunk="few", seed=n, backend="asyncio", via=via))
    out.append(dict(mode="limit", parts=[["F", 1], ["f", 1]] * 1000, limits={}, chunk="few", seed=5, backend="asyncio", via="app"))
    for n in (1048575, 1048576, 1048577):
        for ch in ("one", "few", "blocks"):
            out.append(dict(mode="limit", parts=[["f", 3], ["f", n]], limits={}, chunk=ch, seed=n, backend="asyncio", via="app"))
    out.append(dict(mode="limit", parts=[["f", 600000], ["f", 600000], ["F", 1500000]], limits={}, chunk="blocks", seed=1, backend="asyncio", via="app"))
    for nf in (0, 1, 2, 3):
        for lim in (0, 1, 2):
            for k in ("F", "f"):
                for ch in ("one", "bytes"):
                    for via in ("app", "raw"):
                        out.append(dict(mode="limit", parts=[[k, 2]] * nf, limits={"max_files" if k == "F" else "max_fields": lim}, chunk=ch, seed=lim, backend="asyncio", via=via))
    for size in (0, 1, 9, 10, 11, 12):
        for ch in ("one", "bytes", "empties"):
            out.append(dict(mode="limit", parts=[["F", 50], ["f", size]], limits={"max_part_size": 10}, chunk=ch, seed=size, backend="trio", via="raw"))
    for ct in ("multipart/form-data", "multipart/form-data; charset=utf-8", "multipart/form-data; boundary=", "multipart/form-data; boundary=other"):
        for via in ("app", "raw"):
            out.append(dict(mode="mut", parts=[["F", 5], ["f", 5]], ops=[], ctype=ct, chunk="one", seed=0, backend="asyncio", via=via))
    for via in ("app", "raw"):
        for raw in ("garbage", "", "--boundary", "--boundary\r\n", "--boundary\r\n\r\nx\r\n--boundary--", "--boundary\r\nfoo\r\n\r\n", "--boundary\r\nContent-Disposition: form-data\r\n\r\nx\r\n--boundary--",
                    "--boundary\r\nContent-Disposition: form-data; filename=\"a\"\r\n\r\nx\r\n--boundary--", "--boundary\r\nContent-Type: a/b\r\n\r\nx\r\n--boundary--", "--boundary\r\n\x00: a\r\n\r\n", "\r\n--boundary--\r\n", "--boundary-x",
                    "--boundary\r\nContent-Disposition: \r\n\r\nx\r\n--boundary--", "--boundary\r\n: x\r\n\r\n", "--boundary\r\nContent-Disposition: form-data; name*=utf-8''x\r\n\r\nx\r\n--boundary--"):
            out.append(dict(mode="mut", raw=raw, parts=[], ops=[], ctype=None, chunk="one", seed=0, backend="asyncio", via=via))
    return out


def gen(rng, tier):
    r = rng.random()
    base = dict(chunk=rng.choice(["one", "few", "few", "bytes", "blocks", "empties"]), seed=rng.randrange(10**6), backend=gens.backend(rng), via=rng.choice(["app", "raw"]))
    if r < 0.5:
        lim = {}
        if rng.random() < 0.7:
            lim["max_files"] = rng.choice([0, 1, 2, 3, 5, 10**9])
        if rng.random() < 0.7:
            lim["max_fields"] = rng.choice([0, 1, 2, 3, 5, 10**9])
        if rng.random() < 0.7:
            lim["max_part_size"] = rng.choice([0, 1, 5, 10, 100, 1024, 5000])
        mps = lim.get("max_part_size", 100)
        parts = []
        for _ in range(rng.randrange(0, 9)):
            k = rng.choice("Ff")
            size = rng.choice([0, 1, mps - 1, mps, mps, mps + 1, mps // 2, 2 * mps]) if k == "f" else rng.choice([0, 1, mps, mps + 1, 3 * mps])
            if k == "f" and rng.random() < 0.6:
                size = min(size, mps)
            parts.append([k, max(0, size)])
        return dict(base, mode="limit", parts=parts, limits=lim)
    parts = [[rng.choice("FFf"), rng.choice([0, 1, 20, 300, 3000])] for _ in range(rng.randrange(1, 5))]
    if rng.random() < 0.03:
        parts.insert(0, ["F", 1100000])
    if r < 0.75:
        ops = [[rng.choice(["del", "ins", "flip", "dup", "cut", "swap", "hdr"]), rng.random(), rng.randrange(1, 30), rng.randrange(256)] for _ in range(rng.choice([1, 1, 2, 4]))]
        return dict(base, mode="mut", parts=parts, ops=ops, ctype=rng.choice([None] * 8 + ["multipart/form-data", "multipart/form-data; boundary=nope", "multipart/form-data; boundary=\"", "multipart/form-data; boundary=é; charset=utf-16", "multipart/form-data; boundary=boundary; charset=utf-16", "multipart/form-data; boundary=boundary; charset=base64"]))
    return dict(base, mode=rng.choice(["disc", "cancel"]), parts=parts, at=rng.random())


def build(parts):
    """-> body, [(kind, header_end, data_end)]"""
    out, marks = b"", []
    for i, (k, n) in enumerate(parts):
        out += b"--" + B.encode() + b"\r\nContent-Disposition: form-data; name=\"n%d\"" % i
        if k == "F":
            out += b'; filename="f%d"\r\nContent-Type: text/plain' % i
        out += b"\r\n\r\n"
        h = len(out)
        out += (b"x" if k == "f" else b"\xff") * n
        marks.append((k, h, len(out), n))
        out += b"\r\n"
    return out + b"--" + B.encode() + b"--\r\n", marks


def mutate(body, ops):
    b = bytearray(body)
    for op, pos, n, byte in ops:
        p = int(pos * len(b)) if b else 0
        if op == "del":
            del b[p : p + n]
        elif op == "ins":
            b[p:p] = bytes([byte]) * (n % 3 + 1)
        elif op == "flip" and p < len(b):
            b[p] = byte
        elif op == "dup":
            b[p:p] = b[p : p + n]
        elif op == "cut":
            del b[p:]
        elif op == "swap":
            b[p : p + 2] = b[p : p + 2][::-1]
        elif op == "hdr":
            i = b.find(b"Content", p)
            if i >= 0:
                b[i : i + n] = bytes([byte]) * (n % 4)
    return bytes(b)


def run(case, mon):
    rng = random.Random(case["seed"])
    mode = case["mode"]
    body, marks = build(case["parts"])
    limits = case.get("limits", {})
    if "raw" in case:
        body = case["raw"].encode("latin-1")
    if mode == "mut":
        body = mutate(body, case["ops"])
    sizes = chunking(rng, len(body), case["chunk"])
    msgs = split_body(body, sizes)
    ctype = case.get("ctype") or f"multipart/form-data; boundary={B}"
    res = {}
    tracking.reset()
    disc = int(case["at"] * len(msgs)) if mode == "disc" else None

    async def reader(request):
        try:
            form = await request.form(**limits)
            res["items"] = [(k, v if isinstance(v, str) else (len(v.file.read()), v.size, v.filename)) for k, v in form.multi_items()]
            await form.close()
        except BaseException as exc:
            res["exc"] = exc
            raise

    async def raw(scope, receive, send):
        try:
            await reader(Request(scope, receive))
        except (MultiPartException, ClientDisconnect):
            pass
        await PlainTextResponse("x")(scope, receive, send)

    async def endpoint(request):
        await reader(request)
        return PlainTextResponse("x")

    inner_app = raw if case["via"] == "raw" else Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    consumed = [0]
    cancel_at = int(case["at"] * len(msgs)) if mode == "cancel" else None
    scopes = []

    async def app(scope, receive, send):
        async def rec():
            if cancel_at is not None and consumed[0] >= cancel_at:
                scopes[0].cancel()
                await anyio.sleep_forever()
            m = await receive()
            consumed[0] += 1
            return m

        if cancel_at is None:
            await inner_app(scope, rec, send)
        else:
            with anyio.CancelScope() as cs:
                scopes.append(cs)
                await inner_app(scope, rec, send)
            res["cancelled"] = cs.cancelled_caught

    t = drive(app, http_scope(method="POST", headers=[("content-type", ctype)]), chunks=msgs, backend=case["backend"], seed=case["seed"], jitter=case["seed"] % 3, disconnect_on_recv=disc)
    no_leaks(t, mon)
    opened = tracking.STATS["created"]
    left = len(tracking.still_open())

    def closed(what):
        if opened:
            mon.n("files closed on failure", opened)
        mon.ok(left == 0, "files-left-open", f"{left} of {opened} temporary files were left open after {what}")

    if mode == "cancel":
        mon.n("aborted by cancellation")
        mon.ok(res.get("cancelled") or "items" in res, "cancel", f"cancellation did not end the request: {t.exc!r}")
        if "items" not in res:
            closed("a cancellation")
        mon.nontrivial("cancel", opened, len(msgs))
        return
    if mode == "disc":
        if disc < len(msgs):
            mon.n("aborted by disconnect")
            exc = res.get("exc")
            mon.ok(isinstance(exc, ClientDisconnect), "disconnect", f"form() when the client left after {disc} of {len(msgs)} messages: {exc!r} {res.get('items')}")
            closed("a disconnect")
            mon.nontrivial("disc", opened, len(msgs))
        return
    exc = res.get("exc")
    if case["via"] == "raw":
        if exc is not None and not isinstance(exc, MultiPartException):
            mon.fail("wrong-exception", f"form() raised {exc!r} for a refused body, not the multipart exception (content type {ctype!r})")
            return
        refused = exc is not None
        if exc is not None:
            mon.ok(isinstance(exc.message, str), "message", f"{exc.message!r}")
    else:
        if t.exc is not None or t.status not in (200, 400):
            mon.fail("not-400", f"form() inside an application: status {t.status} exception {t.exc or exc!r} (content type {ctype!r})")
            return
        refused = t.status == 400
        if refused:
            mon.ok(t.complete and exc is not None, "400-response", f"{t.events[-1]}")
    if refused:
        closed("a refusal")
    if mode == "mut":
        if refused:
            mon.n("malformed refused")
        mon.nontrivial("mut", refused, len(case["ops"]), opened)
        mon.eq(left, 0, "files-left-open", "open files")
        return
    # ---- the limit model
    mf, md, mp = limits.get("max_files", 1000), limits.get("max_fields", 1000), limits.get("max_part_size", 1024 * 1024)
    nf = nd = 0
    reason = None
    for k, h, e, n in marks:
        if k == "F":
            nf += 1
            if nf > mf:
                reason, pos = "files", h
                break
        else:
            nd += 1
            if nd > md:
                reason, pos = "fields", h
                break
            if n > mp:
                reason, pos = "part size", h + mp + 1
                break
    mon.eq(refused, reason is not None, "limit", f"refused (files {sum(p[0] == 'F' for p in case['parts'])}, fields {[p[1] for p in case['parts'] if p[0] == 'f'][:20]}, limits {limits}, model says {reason}); exception {exc!r}")
    if reason and refused:
        mon.n("refused " + reason)
        # the parser may hold back as many bytes as could be the start of a delimiter
        ends, acc = 0, 0
        for i, (c, _) in enumerate(msgs):
            acc += len(c)
            if acc >= min(pos + len(B) + 8, len(body)):
                ends = i + 1
                break
        mon.ok(consumed[0] <= ends or case["via"] == "app" and consumed[0] <= ends + 1, "late-refusal", f"{consumed[0]} of {len(msgs)} messages were read although the excess had arrived in message {ends}")
        if ends < len(msgs):
            mon.n("early refusals")
    elif not refused:
        if nf == mf or nd == md or any(p[0] == "f" and p[1] == mp for p in case["parts"]):
            mon.n("accepted at limit")
        want = [(f"n{i}", "x" * n if k == "f" else (n, n, f"f{i}")) for i, (k, n) in enumerate(case["parts"])]
        mon.ok(res["items"] == want, "items", f"{res['items']!r:.400} expected {want!r:.400}")
        mon.eq(left, 0, "files-left-open", "open files after close()")
    mon.nontrivial("limit", reason, nf, nd, len(msgs), sorted(limits))
