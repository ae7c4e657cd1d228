from __future__ import annotations

import json

import anyio

from starlette.applications import Starlette
from starlette.endpoints import WebSocketEndpoint
from starlette.routing import Mount, WebSocketRoute
from starlette.testclient import TestClient
from starlette.websockets import WebSocket, WebSocketDisconnect

from vp import gens
from vp.asgi import Jit, run_async, ws_scope
from vp.engine import mk

ID = "C31"
PROP = dict(
    title="WebSocket data arrives equal, in order, and as the kind it was sent",
    statement=(
        "Every sequence of text, bytes and JSON values (text or binary mode) sent over a WebSocket reaches the other side as the same sequence of equal values of the same kind, one frame each - empty, non-ASCII and large ones included - and iter_text/bytes/json yield exactly the values received before the disconnect. "
        "A WebSocketEndpoint calls on_connect once, then on_receive once per frame in order with the data decoded per its encoding (text, bytes, json from either kind of frame, or whichever kind came), and on_disconnect exactly once with the client's close code (1000 if none), or 1011 when on_receive raised, the exception then propagating. "
        "A frame of the wrong kind or malformed JSON never reaches on_receive: the socket is closed with 1003. Concurrent sessions never receive each other's data."
    ),
    over=["inputs", "histories", "schedules"],
    quant="every sequence of frames, value, kind, mode, encoding, close code, failing frame, and interleaving of sessions",
    why="tests send one or two ASCII frames per mode",
    files=["starlette/websockets.py", "starlette/endpoints.py", "starlette/testclient.py"],
    mechanism=[("receive_* / send_* / iter_*", "starlette/websockets.py:WebSocket"), ("WebSocketEndpoint.dispatch and decode", "starlette/endpoints.py:WebSocketEndpoint")],
)
TECH = "runtime monitoring: recorded frame sequences of both sides compared (equality, order, conservation), handler calls of endpoints logged and compared"
RULE = "each case is one or several sessions with a generated sequence of frames; non-trivial when at least one frame was compared"
LEVEL_NOTE = "held on the generated frame sequences"
BUDGET = {"quick": (100000, 10), "thorough": (1000000, 100)}
REQUIRED = ("frames app->server", "frames server->app", "iterated frames", "endpoint frames", "wrong kind closed", "malformed json closed", "on_receive failures", "test client frames", "empty text frames", "disconnect codes", "malformed json refused")

ENC = [None, "text", "bytes", "json"]


def value(rng, kind):
    if kind == "text":
        return rng.choice(["", "a", "null", "0", "é日本😀", "\x00", "\r\n", gens.text(rng, 0, 30, ctl=True), "x" * rng.choice([1, 125, 126, 65535, 65536])])
    if kind == "bytes":
        return rng.choice(["", "\x00", "\xff\xfe", ["rnd", rng.randrange(1000), rng.choice([0, 1, 125, 126, 65536])], gens.text(rng, 0, 9, uni=False)])
    v = gens.json_value(rng)
    return v


def frames(rng, n, kinds):
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        out.append([k, value(rng, "json" if k.startswith("json") else k)])
    return out


def fixed(tier):
    out = []
    T = [["text", ""], ["text", "a"], ["text", "é😀\x00"], ["text", "0"]]
    B = [["bytes", ""], ["bytes", "\x00"], ["bytes", "\xff"], ["bytes", "{}"]]
    J = [["json", None], ["json", False], ["json", 0], ["json", ""], ["json", {}], ["json", []], ["json", {"é": ["😀", 1.5]}], ["json-b", None], ["json-b", 0], ["json-b", {"é": "日"}]]
    out.append(dict(kind="direct", out=T + B + J, inc=T + B + J, backend="asyncio", seed=1, jit=1))
    for backend in ("asyncio", "trio"):
        for mode, kinds in (("text", ["{", "", "[1", "é", "1 2"]), ("binary", ["", "{", "\xff", '"\xff"', '"\xe9"', '{"a": "\xc3"}', '["\xed\xa0\x80"]', "\xff\xfe1"])):
            for v in kinds:
                out.append(dict(kind="bad-json", mode=mode, v=v, backend=backend))
    out.append(dict(kind="client", sessions=[T + B + J, B + T + J], threads=False, backend="asyncio"))
    for k, vs in (("text", T), ("bytes", B), ("json", J[:7])):
        out.append(dict(kind="iter", mode=k, vals=vs, code=1001, backend="asyncio", extra=False))
        out.append(dict(kind="iter", mode=k, vals=[], code=1000, backend="asyncio", extra=False))
    for enc in ENC:
        for form in ("plain", "both", "other"):
            for f in T + B + [["json", {"a": "é"}], ["json-b", 0], ["json", None], ["text", "{"], ["bytes", "\xff"], ["text", '{"a":1}x'], ["bytes", "[1"], ["text", "  7  "]]:
                for code in (1000, None, 1001, 4000, "absent"):
                    if code != 1000 and form != "plain":
                        continue
                    out.append(dict(kind="endpoint", enc=enc, frames=[f, f], form=form, code=code, fail=None, via="direct", backend="asyncio"))
        for fail in (0, 1):
            out.append(dict(kind="endpoint", enc=enc, frames=[["text", "1"] if enc in (None, "text", "json") else ["bytes", "1"]] * 2, form="plain", code=1001, fail=fail, via="direct", backend="asyncio"))
            out.append(dict(kind="endpoint", enc=enc, frames=[["text", "1"] if enc in (None, "text", "json") else ["bytes", "1"]] * 2, form="plain", code=1001, fail=fail, via="client", backend="asyncio"))
    return out


def gen(rng, tier):
    r = rng.random()
    b = gens.backend(rng)
    if r < 0.4:
        return dict(kind="direct", out=frames(rng, rng.randrange(0, 10), ["text", "bytes", "json", "json-b"]), inc=frames(rng, rng.randrange(0, 10), ["text", "bytes", "json", "json-b"]), backend=b, seed=rng.randrange(10**6), jit=rng.randrange(3))
    if r < 0.55:
        k = rng.choice(["text", "bytes", "json"])
        return dict(kind="iter", mode=k, vals=frames(rng, rng.randrange(0, 8), [k]), code=rng.choice([1000, 1001, 1006, 4000]), backend=b, extra=rng.random() < 0.3)
    if r < 0.56:
        return dict(kind="bad-json", mode="binary", v='["' + gens.text(rng, 0, 6, uni=False) + rng.choice(["\xff", "\xc3(", "\x80", "\xf5"]) + rng.choice(["", "é"]) + '"]', backend=b)
    if r < 0.92:
        enc = rng.choice(ENC)
        good = {None: ["text", "bytes"], "text": ["text"], "bytes": ["bytes"], "json": ["json", "json-b"]}[enc]
        fs = frames(rng, rng.randrange(0, 7), good)
        if rng.random() < 0.3:
            fs.insert(rng.randrange(len(fs) + 1), rng.choice([["text", "x"], ["bytes", "\xff"], ["text", ""], ["bytes", ""], ["text", "[1,"], ["json", 1]]))
        return dict(kind="endpoint", enc=enc, frames=fs, form=rng.choice(["plain", "both", "plain", "other"]), code=rng.choice([1000, 1001, None, "absent", rng.randrange(3000, 5000)]), fail=rng.choice([None, None, 0, 1, 2]),
                    via="client" if rng.random() < 0.05 else rng.choice(["direct", "route", "mount"]), backend=b)
    return dict(kind="client", sessions=[frames(rng, rng.randrange(1, 6), ["text", "bytes", "json", "json-b"]) for _ in range(rng.choice([1, 1, 2, 3]))], threads=rng.random() < 0.3, backend=b)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def val(f):
    return mk(f[1]) if f[0] == "bytes" else f[1]


def frame(f, form="plain"):
    """The ASGI message by which a server delivers frame f."""
    k, v = f
    m = {"type": "websocket.receive"}
    if k == "text":
        m["text"] = v
    elif k == "bytes":
        m["bytes"] = mk(v)
    elif k == "json":
        m["text"] = json.dumps(v)
    else:
        m["bytes"] = json.dumps(v, ensure_ascii=False).encode()
    if form == "both":
        m.setdefault("text", None)
        m.setdefault("bytes", None)
    elif form == "other":
        m = {"bytes": m.get("bytes"), "text": m.get("text"), "type": m["type"]}
    return m


def check_frame(mon, m, f, what):
    k, v = f
    ok = m.get("type") in ("websocket.send", "websocket.receive")
    text, data = m.get("text"), m.get("bytes")
    if k == "text":
        ok = ok and data is None and isinstance(text, str) and text == v
    elif k == "bytes":
        ok = ok and text is None and isinstance(data, bytes) and data == mk(v)
    elif k == "json":
        ok = ok and data is None and isinstance(text, str) and same(json.loads(text), v)
    else:
        ok = ok and text is None and isinstance(data, bytes) and same(json.loads(data.decode("utf-8")), v)
    mon.ok(ok, "frame", f"{what}: the frame {str(m)[:300]} is not {str(f)[:300]}")


def get(ws, kind):
    return {"text": ws.receive_text, "bytes": ws.receive_bytes, "json": ws.receive_json, "json-b": lambda: ws.receive_json(mode="binary")}[kind]()


def put(ws, f):
    k, v = f
    if k == "text":
        return ws.send_text(v)
    if k == "bytes":
        return ws.send_bytes(mk(v))
    return ws.send_json(v, mode="binary") if k == "json-b" else ws.send_json(v)


def run_direct(case, mon):
    sent, got = [], []
    inc = [{"type": "websocket.connect"}] + [frame(f) for f in case["inc"]] + [{"type": "websocket.disconnect", "code": 1001, "reason": "r"}]

    async def main():
        jit = Jit(case["seed"], case["jit"])

        async def receive():
            await jit()
            return inc.pop(0)

        async def send(m):
            await jit()
            sent.append(dict(m))

        ws = WebSocket(ws_scope(), receive, send)
        await ws.accept()

        async def sender():
            for f in case["out"]:
                await put(ws, f)

        async def receiver():
            for f in case["inc"]:
                got.append(await get(ws, f[0]))

        async with anyio.create_task_group() as tg:
            tg.start_soon(sender)
            tg.start_soon(receiver)

    run_async(case["backend"], case["seed"], main)
    body = sent[1:]
    mon.eq(len(body), len(case["out"]), "frame-count", "frames sent")
    for m, f in zip(body, case["out"]):
        mon.n("frames app->server")
        check_frame(mon, m, f, "sent by the application")
    for g, f in zip(got, case["inc"]):
        mon.n("frames server->app")
        mon.ok(same(g, val(f)), "received", f"received {str(g)[:300]!r} for {str(f)[:300]}")
    if case["out"] or case["inc"]:
        mon.nontrivial(tuple(f[0] for f in case["out"]), tuple(f[0] for f in case["inc"]))


def run_iter(case, mon):
    got = []
    mode = case["mode"]
    inc = [{"type": "websocket.connect"}] + [frame(f) for f in case["vals"]] + [{"type": "websocket.disconnect", "code": case["code"]}]
    after = []

    async def main():
        async def receive():
            return inc.pop(0)

        async def send(m):
            pass

        ws = WebSocket(ws_scope(), receive, send)
        await ws.accept()
        it = {"text": ws.iter_text, "bytes": ws.iter_bytes, "json": ws.iter_json}[mode]
        async for x in it():
            got.append(x)
            if case["extra"] and len(got) == 1:
                break
        if case["extra"] and got:
            async for x in it():
                got.append(x)
        after.append(ws.client_state.name)

    run_async(case["backend"], 0, main)
    want = [val(f) for f in case["vals"]]
    mon.ok(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), "iterated", f"iter_{mode} yielded {str(got)[:400]}, received {str(want)[:400]}")
    mon.n("iterated frames", len(want))
    mon.n("oracle comparisons")
    mon.eq(after, ["DISCONNECTED"], "iter-end", "client state after the iteration")
    mon.nontrivial("iter", mode, len(want))


def run_bad_json(case, mon):
    """What is no JSON text is an error, never another value - and the frames after it arrive."""
    v = case["v"] if case["mode"] == "text" else case["v"].encode("latin-1", "ignore")
    try:
        json.loads(v if case["mode"] == "text" else v.decode("utf-8"))
        return
    except ValueError:
        pass
    got = []

    async def main():
        inc = [{"type": "websocket.connect"}, {"type": "websocket.receive", "text" if case["mode"] == "text" else "bytes": v}, {"type": "websocket.receive", "text": "next"}]

        async def receive():
            return inc.pop(0)

        async def send(m):
            pass

        ws = WebSocket(ws_scope(), receive, send)
        await ws.accept()
        try:
            got.append(("value", await ws.receive_json(mode=case["mode"])))
        except ValueError:
            got.append(("error", None))
        got.append(await ws.receive_text())

    run_async(case["backend"], 0, main)
    mon.n("malformed json refused")
    mon.eq(got, [("error", None), "next"], "bad-json", f"receive_json(mode={case['mode']!r}) of {v!r}, then receive_text")
    mon.nontrivial("bad-json", case["mode"], v)


def decode(enc, m):
    """-> ('ok', value) or ('bad', kind)"""
    text, data = m.get("text"), m.get("bytes")
    if enc == "text":
        return ("ok", text) if text is not None else ("bad", "kind")
    if enc == "bytes":
        return ("ok", data) if data is not None else ("bad", "kind")
    if enc == "json":
        try:
            return ("ok", json.loads(text if text is not None else data.decode("utf-8")))
        except ValueError:
            return ("bad", "json")
    return ("ok", text if text is not None else data)


class Fail(Exception):
    pass


def run_endpoint(case, mon):
    log = []
    enc = case["enc"]
    inc = [frame(f, case["form"]) for f in case["frames"]]
    want, end, code = ["connect"], None, None
    for i, m in enumerate(inc):
        r = decode(enc, m)
        if r[0] == "bad":
            end = r[1]
            break
        want.append(("receive", r[1]))
        if m.get("text") == "":
            mon.n("empty text frames")
        if case["fail"] == i:
            end = "fail"
            break
    dcode = 1011 if end else (1000 if case["code"] in (None, "absent") else case["code"])
    want.append(("disconnect", dcode))
    sent = []
    out = []

    class E(WebSocketEndpoint):
        encoding = enc

        async def on_connect(self, websocket):
            log.append("connect")
            await websocket.accept()

        async def on_receive(self, websocket, data):
            await anyio.sleep(0)
            log.append(("receive", data))
            n = sum(1 for x in log if x[0] == "receive") - 1
            if case["fail"] == n:
                raise Fail()
            if case["via"] == "client":
                await websocket.send_text("ack")

        async def on_disconnect(self, websocket, close_code):
            log.append(("disconnect", close_code))

    via = case["via"]
    app = E
    if via in ("route", "client"):
        app = Starlette(routes=[WebSocketRoute("/", E)])
    elif via == "mount":
        app = Starlette(routes=[Mount("/", routes=[WebSocketRoute("/", E)])])
    if via == "client":
        cl = TestClient(app, backend=case["backend"])
        try:
            with cl.websocket_connect("/") as ws:
                for i, m in enumerate(inc):
                    ws.send({k: v for k, v in m.items()})
                    if i == len([w for w in want if w[0] == "receive"]) or (end == "fail" and case["fail"] == i):
                        break
                    try:
                        ws.receive_text()
                    except WebSocketDisconnect as exc:
                        sent.append(("websocket.close", exc.code))
                        break
                if not end:
                    ws.close(1000 if case["code"] in (None, "absent") else case["code"])
                else:
                    m = ws.receive()
                    sent.append((m["type"], m.get("code")))
        except (Fail, RuntimeError) as exc:
            out.append(exc)
        except BaseException as exc:
            if end != "fail":
                raise
            out.append(Fail())
        mon.n("test client frames", len(inc))
    else:
        msgs = [{"type": "websocket.connect"}] + inc
        d = {"type": "websocket.disconnect"}
        if case["code"] != "absent":
            d["code"] = case["code"]
        msgs.append(d)

        async def main():
            async def receive():
                await anyio.sleep(0)
                return msgs.pop(0)

            async def send(m):
                sent.append((m["type"], m.get("code")))

            try:
                if via == "direct":
                    await E(ws_scope(), receive, send)
                else:
                    await app(ws_scope(), receive, send)
            except Exception as exc:
                out.append(exc)

        run_async(case["backend"], 0, main)
        sent = [s for s in sent if s[0] != "websocket.accept"]
    mon.nontrivial(enc, end, case["via"], len(inc), case["form"])
    mon.n("endpoint frames", len([w for w in want if w[0] == "receive"]))
    ok = len(log) == len(want) and all(a == b and (len(a) < 2 or same(a[1], b[1])) for a, b in zip(log, want))
    mon.n("oracle comparisons")
    if not ok:
        mon.fail("endpoint-calls", f"encoding {enc}, frames {str(inc)[:500]}, disconnect code {case['code']}: handler calls were {str(log)[:500]}, the oracle requires {str(want)[:500]}")
    mon.n("disconnect codes")
    if end == "fail":
        mon.n("on_receive failures")
        mon.ok(len(out) == 1 and isinstance(out[0], Fail), "endpoint-exception", f"on_receive raised Fail and the application ended with {out}")
    elif end:
        mon.n("wrong kind closed" if end == "kind" else "malformed json closed")
        if via != "client":  # the test client may have torn the session down before the close is read
            mon.eq(sent, [("websocket.close", 1003)], "endpoint-1003", f"messages sent for a {end} error ({case['frames']}, encoding {enc})")
    else:
        mon.eq([s for s in sent if s[0] == "websocket.close"], [], "endpoint-close", "close messages sent")
        mon.ok(not out, "endpoint-exception", f"the endpoint raised {out}")


def run_client(case, mon):
    """Echo through the test client: each side's frames come back equal."""
    async def echo(ws):
        await ws.accept()
        sid = ws.path_params["sid"]
        await ws.send_text(str(sid))
        try:
            while True:
                k = await ws.receive_text()
                v = await get(ws, k)
                await put(ws, [k, v if k != "bytes" else v.decode("latin-1")])
        except WebSocketDisconnect as exc:
            codes[sid] = exc.code

    codes = {}
    app = Starlette(routes=[WebSocketRoute("/{sid:int}", echo)])
    with TestClient(app, backend=case["backend"]) as client:
        import contextlib

        with contextlib.ExitStack() as stack:
            socks = []
            for i in range(len(case["sessions"])):
                ws = stack.enter_context(client.websocket_connect(f"/{i}"))
                mon.eq(ws.receive_text(), str(i), "session-mixup", "greeting")
                socks.append(ws)
            n = max(len(s) for s in case["sessions"])

            def talk(i, j):
                f = case["sessions"][i][j]
                socks[i].send_text(f[0])
                put(socks[i], f)
                return f

            def back(i, f):
                g = get(socks[i], f[0])
                mon.n("test client frames")
                mon.ok(same(g, val(f)), "echo", f"session {i}: sent {str(f)[:300]}, {str(g)[:300]!r} came back")

            if case["threads"]:  # everything sent before anything is read
                order = [(i, talk(i, j)) for j in range(n) for i in range(len(socks)) if j < len(case["sessions"][i])]
                for i, f in order:
                    back(i, f)
            else:
                for j in range(n):
                    todo = [(i, talk(i, j)) for i in range(len(socks)) if j < len(case["sessions"][i])]
                    for i, f in reversed(todo):
                        back(i, f)
            for i, ws in enumerate(socks):
                ws.close(4000 + i)
    mon.eq(codes, {i: 4000 + i for i in range(len(case["sessions"]))}, "close-code", "close codes the endpoint saw")
    mon.nontrivial("client", len(case["sessions"]), tuple(f[0] for s in case["sessions"] for f in s))


def run(case, mon):
    {"direct": run_direct, "iter": run_iter, "endpoint": run_endpoint, "client": run_client, "bad-json": run_bad_json}[case["kind"]](case, mon)
