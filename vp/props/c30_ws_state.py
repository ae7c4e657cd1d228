from __future__ import annotations

import json
import os

import anyio

from starlette.applications import Starlette
from starlette.exceptions import HTTPException, WebSocketException
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import WebSocketRoute
from starlette.websockets import WebSocket, WebSocketDisconnect, WebSocketState

from vp import gens
from vp.asgi import Jit, run_async, ws_scope

ID = "C30"
PROP = dict(
    title="A WebSocket never leaves its protocol, whatever the endpoint does",
    statement=(
        "For every sequence of operations on a WebSocket and every sequence of server events, the messages that reach the server form a legal session: one accept, close or denial response first, data only between accept and close, nothing after a close, a denial or a failed send; any other call, and any server message out of turn, raises RuntimeError and sends nothing. "
        "accept() takes the connect message once, receiving before accept or after a disconnect is refused, and a disconnect, with its code and reason, raises WebSocketDisconnect from receive_text/bytes/json and ends iter_*; a send that fails with OSError raises WebSocketDisconnect(1006). "
        "A denial response of any class reaches the server with its exact status, headers and body, and only if the server supports it; exceptions raised before or after accept close or deny the session once, with the given code."
    ),
    over=["histories", "crash_points"],
    quant="every sequence of up to 14 calls over all operations and arguments, every script of server messages (in and out of turn), every failing send, with and without the denial extension; tasks that send over one WebSocket at once",
    why="tests check a handful of single illegal calls; legality is a property of whole call sequences",
    files=["starlette/websockets.py", "starlette/routing.py", "starlette/middleware/exceptions.py", "starlette/responses.py"],
    mechanism=[("WebSocket.send/receive state transitions", "starlette/websockets.py:WebSocket"), ("websocket_session", "starlette/routing.py"), ("websocket_exception / http_exception", "starlette/middleware/exceptions.py"), ("websocket. prefix of denial responses", "starlette/responses.py")],
)
TECH = "runtime monitoring: protocol automaton over the messages exchanged with the server, plus a reference state machine predicting the outcome of every call"
RULE = "each case is a sequence of operations against a script of server messages; non-trivial when every outcome was compared with the reference machine"
LEVEL_NOTE = "held on the generated call sequences and server scripts"
BUDGET = {"quick": (200000, 10), "thorough": (2500000, 120)}
REQUIRED = ("illegal calls refused", "disconnects raised", "iterations ended", "sends failed", "denials sent", "denials refused", "out of turn messages", "sessions completed", "exception closes", "exception denials", "exceptions after the end", "close applications", "sessions shared by tasks")

OPS = ["accept", "accept-sub", "receive", "text", "bytes", "json", "json-b", "json-x", "iter-text", "iter-bytes", "iter-json", "send-text", "send-bytes", "send-json", "send-json-b", "send-json-x",
       "close", "close-code", "deny", "deny-stream", "deny-file", "raw-accept", "raw-close", "raw-send", "raw-start", "raw-body", "raw-body-more", "raw-bad", "raw-http"]
SENDS = ["send-text", "send-bytes", "send-json", "raw-send", "close", "close-code", "raw-close"]
SERVER = ["connect", "text", "bytes", "json", "disconnect", "disconnect-reason", "bad"]


def fixed(tier):
    out = []
    # every operation in every reachable state
    pre = {
        "connecting": ([], ["connect", "text", "disconnect"]),
        "received": (["receive"], ["connect", "text", "disconnect"]),
        "connected": (["accept"], ["connect", "text", "disconnect"]),
        "connected2": (["receive", "accept"], ["connect", "text", "disconnect"]),
        "closed": (["accept", "close"], ["connect", "text", "disconnect"]),
        "closed-first": (["close"], ["connect", "text", "disconnect"]),
        "gone": (["accept", "receive"], ["connect", "disconnect"]),
        "gone-text": (["accept", "text"], ["connect", "disconnect-reason"]),
        "gone-first": (["receive", "receive"], ["connect", "disconnect"]),
        "denying": (["raw-start"], ["connect", "disconnect"]),
        "denied": (["deny"], ["connect", "disconnect"]),
        "bad-first": (["receive"], ["text", "connect"]),
        "bogus-first": (["receive"], ["bad", "connect"]),
        "bogus-later": (["accept", "receive"], ["connect", "bad", "text"]),
        "bad-later": (["accept", "receive"], ["connect", "connect", "text"]),
    }
    for name, (ops, server) in pre.items():
        for op in OPS:
            for op2 in (None, "send-text", "close", "text", "accept", "raw-body"):
                for ext in (True, False):
                    if ext and op2 and not op.startswith("deny"):
                        continue
                    out.append(dict(kind="ops", ops=ops + [op] + ([op2] if op2 else []), server=server + ["text", "bytes", "json", "disconnect"], ext=ext, fail_at=None, seed=1, jit=1, backend="asyncio"))
    for op in OPS:
        for fail_at in (0, 1, 2):
            for second in ("send-text", "close", "receive", "text"):
                out.append(dict(kind="ops", ops=["accept", "send-text", op, second], server=["connect", "text", "json", "disconnect"], ext=True, fail_at=fail_at, seed=1, jit=0, backend="asyncio"))
    for what in ("ws-exc", "http-exc", "value", "custom"):
        for when in ("before", "after", "closed", "received", "denied"):
            for ext in (True, False):
                for code in (1000, 1008, 3000, 4999):
                    out.append(dict(kind="exc", what=what, when=when, ext=ext, code=code, reason="why", backend="asyncio", handler=False))
    for args, kw in ([], {}), ([4001, "why"], {}), ([4001], {"reason": "é"}), ([], {"reason": "no"}), ([], {"code": 1008}), ([1001, ""], {}), ([1001, None], {}):
        out.append(dict(kind="close-app", args=args, kw=kw))
    return out


def gen(rng, tier):
    if rng.random() < 0.005:
        c, r = rng.choice([1000, 1001, 1008, rng.randrange(3000, 5000)]), rng.choice([None, "", gens.text(rng, 0, 20)])
        return dict(kind="close-app", args=rng.choice([[], [c], [c, r]]), kw={}) if rng.random() < 0.5 else dict(kind="close-app", args=[], kw=rng.choice([{"code": c}, {"reason": r}, {"code": c, "reason": r}]))
    if rng.random() < 0.03:
        pre = rng.choice([["accept"], ["accept"], [], ["raw-start"], ["raw-start"]])
        ops = SENDS if pre == ["accept"] else ["raw-body", "raw-body-more", "raw-body"] if pre else ["deny", "deny-stream", "close", "raw-close", "raw-start", "raw-accept", "send-text"]
        return dict(kind="tasks", pre=pre, tasks=[[rng.choice(ops) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(2, 5))], seed=rng.randrange(10**6), jit=rng.randrange(1, 4), backend=gens.backend(rng))
    if rng.random() < 0.05:
        return dict(kind="exc", what=rng.choice(["ws-exc", "http-exc", "value", "custom"]), when=rng.choice(["before", "after", "closed", "received", "denied"]), ext=rng.random() < 0.7,
                    code=rng.choice([1000, 1001, 1008, 3000, rng.randrange(3000, 5000)]), reason=gens.text(rng, 0, 8), backend=gens.backend(rng), handler=rng.random() < 0.3)
    r = rng.random()
    ops = []
    if r < 0.6:
        ops.append(rng.choice(["accept", "accept", "accept-sub", "raw-accept"]))
        if rng.random() < 0.3:
            ops.insert(0, "receive")
    n = rng.randrange(1, 12)
    talk = ["receive", "text", "bytes", "json", "json-b", "send-text", "send-bytes", "send-json", "raw-send", "iter-text"]
    for _ in range(n):
        ops.append(rng.choice(talk) if rng.random() < 0.7 else rng.choice(OPS))
    if rng.random() < 0.4:
        ops.append("close")
    server = ["connect"] if rng.random() < 0.93 else []
    # the kinds the receiving operations ask for, mostly
    for op in ops:
        if op in ("text", "iter-text"):
            server.append("text")
        elif op in ("bytes", "iter-bytes"):
            server.append("bytes")
        elif op in ("json", "iter-json"):
            server.append("json")
        elif op == "json-b":
            server.append("json-b")
        elif op == "receive":
            server.append(rng.choice(["text", "bytes", "json"]))
    if rng.random() < 0.3 and server:
        server.insert(rng.randrange(len(server)), rng.choice(["bad", "connect", "disconnect", "disconnect-reason"]))
    server.append(rng.choice(["disconnect", "disconnect-reason"]))
    return dict(kind="ops", ops=ops, server=server, ext=rng.random() < 0.6, fail_at=rng.choice([None, None, None, 0, 1, 2, 3]), seed=rng.randrange(10**6), jit=rng.randrange(3), backend=gens.backend(rng))


def server_msg(kind, i):
    if kind == "connect":
        return {"type": "websocket.connect"}
    if kind == "text":
        return {"type": "websocket.receive", "text": f"t{i}"}
    if kind == "bytes":
        return {"type": "websocket.receive", "bytes": b"b%d" % i}
    if kind == "json":
        return {"type": "websocket.receive", "text": json.dumps({"n": i})}
    if kind == "json-b":
        return {"type": "websocket.receive", "bytes": json.dumps({"n": i}).encode()}
    if kind == "disconnect":
        return {"type": "websocket.disconnect", "code": 1001 + i % 3}
    if kind == "disconnect-reason":
        return {"type": "websocket.disconnect", "code": 4000 + i, "reason": f"bye {i}"}
    return {"type": ["websocket.bogus", "http.request", "websocket.send", "http.disconnect"][i % 4]}


class Mismatch(Exception):
    """The script offers a frame of the other kind: not part of this property."""


class Model:
    """Reference machine, written from the ASGI specification and the documentation."""

    def __init__(self, case, script):
        self.client = "connecting"
        self.app = "connecting"
        self.script = list(script)
        self.pos = 0
        self.sent = []
        self.ext = case["ext"]
        self.fail_at = case["fail_at"]
        self.nsend = 0
        self.poisoned = False

    def take(self):
        if self.pos >= len(self.script):
            raise Mismatch()  # would wait for ever
        m = self.script[self.pos]
        self.pos += 1
        return m

    def receive(self):
        if self.client == "gone":
            return ("RuntimeError",)
        m = self.take()
        if self.client == "connecting":
            if m["type"] != "websocket.connect":
                return ("RuntimeError",)
            self.client = "open"
        else:
            if m["type"] not in ("websocket.receive", "websocket.disconnect"):
                return ("RuntimeError",)
            if m["type"] == "websocket.disconnect":
                self.client = "gone"
        return ("ok", m)

    def send(self, m):
        t = m["type"]
        if self.app == "connecting":
            if t == "websocket.accept":
                new = "open"
            elif t == "websocket.close":
                new = "done"
            elif t == "websocket.http.response.start":
                new = "denying"
            else:
                return ("RuntimeError",)
        elif self.app == "open":
            if t not in ("websocket.send", "websocket.close"):
                return ("RuntimeError",)
            new = "done" if t == "websocket.close" else "open"
        elif self.app == "denying":
            if t != "websocket.http.response.body":
                return ("RuntimeError",)
            new = "denying" if m.get("more_body") else "done"
        else:
            return ("RuntimeError",)
        was, self.app = self.app, new
        self.sent.append(m)
        self.nsend += 1
        if self.fail_at is not None and self.nsend > self.fail_at:
            if was != "open":
                self.poisoned = True
                return ("lost",)
            self.app = "done"
            return ("WebSocketDisconnect", 1006, "")
        return ("ok", None)

    def data(self, kind):
        if self.app != "open":
            return ("RuntimeError",)
        r = self.receive()
        if r[0] != "ok":
            return r
        m = r[1]
        if m["type"] == "websocket.disconnect":
            return ("WebSocketDisconnect", m["code"], m.get("reason", ""))
        if kind == "text":
            if "text" not in m:
                raise Mismatch()
            return ("ok", m["text"])
        if kind == "bytes":
            if "bytes" not in m:
                raise Mismatch()
            return ("ok", m["bytes"])
        key = "text" if kind == "json" else "bytes"
        if key not in m:
            raise Mismatch()
        try:
            return ("ok", json.loads(m[key]))
        except ValueError:
            raise Mismatch()

    def op(self, op, i, mon_tmp):
        if op in ("accept", "accept-sub"):
            if self.client == "connecting":
                r = self.receive()
                if r[0] != "ok":
                    return r
            sub = "p1" if op == "accept-sub" else None
            return self.send({"type": "websocket.accept", "subprotocol": sub, "headers": [(b"x-a", b"1")] if sub else []})
        if op == "receive":
            return self.receive()
        if op in ("text", "bytes", "json", "json-b"):
            return self.data(op)
        if op in ("json-x", "send-json-x"):
            return ("RuntimeError",)
        if op.startswith("iter-"):
            kind = op[5:]
            items = []
            while True:
                r = self.data(kind)
                if r[0] == "ok":
                    items.append(r[1])
                    if len(items) == 2:
                        return ("ok", items)
                elif r[0] == "WebSocketDisconnect":
                    return ("ok", items + ["END"])
                else:
                    return r
        if op == "send-text":
            return self.send({"type": "websocket.send", "text": f"s{i}é"})
        if op == "send-bytes":
            return self.send({"type": "websocket.send", "bytes": b"s%d\xff" % i})
        if op == "send-json":
            return self.send({"type": "websocket.send", "json": {"k": [i, "é"]}})
        if op == "send-json-b":
            return self.send({"type": "websocket.send", "json-b": {"k": [i, "é"]}})
        if op == "close":
            return self.send({"type": "websocket.close", "code": 1000, "reason": ""})
        if op == "close-code":
            return self.send({"type": "websocket.close", "code": 4001, "reason": "because"})
        if op.startswith("deny"):
            if not self.ext:
                return ("RuntimeError",)
            r = self.send({"type": "websocket.http.response.start", "status": 401})
            if r[0] != "ok":
                return r
            bodies = {"deny": [(b"no\xc3\xa9", False)], "deny-stream": [(b"a", True), (b"b", True), (b"", False)], "deny-file": [(b"F" * 10, False)]}[op]
            for b, more in bodies:
                m = {"type": "websocket.http.response.body", "body": b}
                if more:
                    m["more_body"] = True
                r = self.send(m)
                if r[0] != "ok":
                    return r
            return ("ok", None)
        return self.send(raw_msg(op, i))


def raw_msg(op, i):
    return {
        "raw-accept": {"type": "websocket.accept", "subprotocol": None, "headers": []},
        "raw-close": {"type": "websocket.close", "code": 4100 + i, "reason": "r"},
        "raw-send": {"type": "websocket.send", "text": f"raw{i}"},
        "raw-start": {"type": "websocket.http.response.start", "status": 418, "headers": []},
        "raw-body": {"type": "websocket.http.response.body", "body": b"x"},
        "raw-body-more": {"type": "websocket.http.response.body", "body": b"x", "more_body": True},
        "raw-bad": {"type": "websocket.receive", "text": "no"},
        "raw-http": {"type": "http.response.start", "status": 200, "headers": []},
    }[op]


async def perform(ws, op, i, mon_tmp):
    if op == "accept":
        return await ws.accept()
    if op == "accept-sub":
        return await ws.accept(subprotocol="p1", headers=[(b"x-a", b"1")])
    if op == "receive":
        return await ws.receive()
    if op == "text":
        return await ws.receive_text()
    if op == "bytes":
        return await ws.receive_bytes()
    if op == "json":
        return await ws.receive_json()
    if op == "json-b":
        return await ws.receive_json(mode="binary")
    if op == "json-x":
        return await ws.receive_json(mode="blob")
    if op == "send-json-x":
        return await ws.send_json({}, mode="blob")
    if op.startswith("iter-"):
        items = []
        async for x in getattr(ws, "iter_" + op[5:])():
            items.append(x)
            if len(items) == 2:
                return items
        return items + ["END"]
    if op == "send-text":
        return await ws.send_text(f"s{i}é")
    if op == "send-bytes":
        return await ws.send_bytes(b"s%d\xff" % i)
    if op == "send-json":
        return await ws.send_json({"k": [i, "é"]})
    if op == "send-json-b":
        return await ws.send_json({"k": [i, "é"]}, mode="binary")
    if op == "close":
        return await ws.close()
    if op == "close-code":
        return await ws.close(code=4001, reason="because")
    if op == "deny":
        return await ws.send_denial_response(PlainTextResponse("noé", status_code=401))
    if op == "deny-stream":
        return await ws.send_denial_response(StreamingResponse(iter([b"a", "b"]), status_code=401))
    if op == "deny-file":
        return await ws.send_denial_response(FileResponse(os.path.join(mon_tmp, "deny.txt"), status_code=401))
    return await ws.send(raw_msg(op, i))


def same_msg(got, want):
    if got.get("type") != want["type"]:
        return False
    t = want["type"]
    if t == "websocket.accept":
        return got.get("subprotocol") == want["subprotocol"] and [tuple(h) for h in got.get("headers") or []] == [tuple(h) for h in want["headers"]]
    if t == "websocket.close":
        return got.get("code", 1000) == want["code"] and (got.get("reason") or "") == want["reason"]
    if t == "websocket.send":
        if "json" in want:
            return got.get("bytes") is None and isinstance(got.get("text"), str) and json.loads(got["text"]) == want["json"]
        if "json-b" in want:
            return got.get("text") is None and isinstance(got.get("bytes"), bytes) and json.loads(got["bytes"].decode()) == want["json-b"]
        return got.get("text") == want.get("text") and got.get("bytes") == want.get("bytes")
    if t == "websocket.http.response.start":
        return got["status"] == want["status"]
    if t == "websocket.http.response.body":
        return got.get("body", b"") == want.get("body", b"") and bool(got.get("more_body")) == bool(want.get("more_body"))
    return got == want


def merge_bodies(msgs):
    """A denial body may be cut into messages in any way."""
    out = []
    for m in msgs:
        if m.get("type") == "websocket.http.response.body" and out and out[-1].get("type") == m["type"] and out[-1].get("more_body"):
            out[-1] = {"type": m["type"], "body": out[-1].get("body", b"") + m.get("body", b""), "more_body": bool(m.get("more_body"))}
        else:
            out.append(dict(m))
    return out


def automaton(mon, sent):
    state = "connecting"
    for m in sent:
        mon.n("messages to the server")
        t = m["type"]
        ok = False
        if state == "connecting" and t in ("websocket.accept", "websocket.close", "websocket.http.response.start"):
            ok = True
            state = {"websocket.accept": "open", "websocket.close": "done", "websocket.http.response.start": "denying"}[t]
        elif state == "open" and t in ("websocket.send", "websocket.close"):
            ok = True
            state = "done" if t == "websocket.close" else "open"
            if t == "websocket.send":
                ok = isinstance(m.get("text"), str) != isinstance(m.get("bytes"), bytes)
        elif state == "denying" and t == "websocket.http.response.body":
            ok = True
            state = "denying" if m.get("more_body") else "done"
        if not ok:
            mon.fail("illegal-session", f"message {m} sent to the server in state {state}; session: {[x['type'] for x in sent]}")
            return state
    return state


def make_io(case, script, sent, jit):
    pos = [0]

    async def receive():
        await jit()
        if pos[0] >= len(script):
            await anyio.sleep_forever()
        m = script[pos[0]]
        pos[0] += 1
        await jit()
        return dict(m)

    async def send(message):
        await jit()
        sent.append(dict(message))
        if case.get("fail_at") is not None and len(sent) > case["fail_at"]:
            raise OSError("connection lost")
        await jit()

    return receive, send, pos


def run_ops(case, mon):
    with open(os.path.join(mon.tmp, "deny.txt"), "w") as f:
        f.write("F" * 10)
    script = [server_msg(k, i) for i, k in enumerate(case["server"])]
    model = Model(case, script)
    # how far can the sequence go before it waits for ever or needs frames of another kind
    plan = []
    for i, op in enumerate(case["ops"]):
        before = dict(model.__dict__, sent=list(model.sent))
        try:
            r = model.op(op, i, mon.tmp)
        except Mismatch:
            model.__dict__.update(before)
            break
        plan.append((op, r))
        if model.poisoned:
            break
    sent = []
    outcomes = []

    async def main():
        receive, send, pos = make_io(case, script, sent, Jit(case["seed"], case["jit"]))
        ws = WebSocket(ws_scope(extensions={"websocket.http.response": {}} if case["ext"] else {}), receive, send)
        for i, (op, want) in enumerate(plan):
            n = len(sent)
            try:
                got = ("ok", await perform(ws, op, i, mon.tmp))
            except WebSocketDisconnect as exc:
                got = ("WebSocketDisconnect", exc.code, exc.reason)
            except Exception as exc:
                got = (type(exc).__name__, str(exc))
            outcomes.append((op, got, len(sent) - n, ws.client_state, ws.application_state, pos[0]))
            await anyio.sleep(0)

    run_async(case["backend"], case["seed"], main)
    for i, (op, want) in enumerate(plan):
        _, got, nsent, cstate, astate, taken = outcomes[i]
        where = f"call {i} {op} of {case['ops']} (server script {case['server']})"
        if want[0] == "RuntimeError":
            mon.n("illegal calls refused")
            if not mon.ok(got[0] == "RuntimeError", "illegal-call", f"{where}: must raise RuntimeError, observed {got}"):
                return
        elif want[0] == "lost":
            mon.n("sends failed")
            if not mon.ok(got[0] in ("OSError", "WebSocketDisconnect"), "lost-send", f"{where}: the server lost the connection, observed {got}"):
                return
        elif want[0] == "WebSocketDisconnect":
            mon.n("disconnects raised" if want[1] != 1006 else "sends failed")
            if not mon.eq(got, want, "disconnect", where):
                return
        else:
            if not mon.eq(got[0], "ok", "call-failed", f"{where}: must succeed, observed {got}"):
                return
            if want[1] is not None and not mon.eq(got[1], want[1], "call-value", where):
                return
            if op.startswith("iter") and want[1][-1:] == ["END"]:
                mon.n("iterations ended")
            if op.startswith("deny"):
                mon.n("denials sent")
        if op.startswith("deny") and want[0] == "RuntimeError":
            mon.n("denials refused")
    if not model.poisoned:
        g, w = merge_bodies(sent), merge_bodies(model.sent)
        if not (len(g) == len(w) and all(same_msg(a, b) for a, b in zip(g, w))):
            mon.fail("session", f"messages sent to the server {g}, the reference machine requires {w}; calls {[p[0] for p in plan]}")
    mon.n("oracle comparisons")
    if automaton(mon, sent) == "done":
        mon.n("sessions completed")
    if "bad" in case["server"] and any(w == ("RuntimeError",) for _, w in plan):
        mon.n("out of turn messages")
    if outcomes:
        c, a = outcomes[-1][3], outcomes[-1][4]
        if not model.poisoned:
            want_c = {"connecting": WebSocketState.CONNECTING, "open": WebSocketState.CONNECTED, "gone": WebSocketState.DISCONNECTED}[model.client]
            want_a = {"connecting": WebSocketState.CONNECTING, "open": WebSocketState.CONNECTED, "done": WebSocketState.DISCONNECTED, "denying": WebSocketState.RESPONSE}[model.app]
            mon.eq((c, a), (want_c, want_a), "states", f"client_state and application_state after {[p[0] for p in plan]}")
    mon.nontrivial(model.client, model.app, tuple(p[0] for p in plan), tuple(p[1][0] for p in plan))


class Custom(Exception):
    pass


def run_exc(case, mon):
    what, when = case["what"], case["when"]

    def exc():
        if what == "ws-exc":
            return WebSocketException(code=case["code"], reason=case["reason"])
        if what == "http-exc":
            return HTTPException(400 + case["code"] % 50, detail=case["reason"], headers={"x-h": "1"})
        if what == "custom":
            return Custom("x")
        return ValueError("x")

    async def endpoint(ws):
        if when in ("after", "closed"):
            await ws.accept()
            await ws.send_text("hi")
        if when == "received":
            await ws.receive()
        if when == "closed":
            await ws.close(1001)
        if when == "denied":
            await ws.send_denial_response(Response(b"no", 403)) if case["ext"] else await ws.close(1002)
        raise exc()

    async def on_custom(ws, e):
        await ws.close(3999, "custom")

    async def on_ws(ws, e):
        await ws.close(3998, "handled " + str(e.code))

    handlers = {Custom: on_custom}
    if case["handler"]:
        handlers[WebSocketException] = on_ws
    app = Starlette(routes=[WebSocketRoute("/", endpoint)], exception_handlers=handlers)
    sent = []
    res = []

    async def main():
        receive, send, pos = make_io({}, [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1005}], sent, Jit(0, 1))
        try:
            await app(ws_scope(extensions={"websocket.http.response": {}} if case["ext"] else {}), receive, send)
            res.append(None)
        except Exception as e:
            res.append(e)

    run_async(case["backend"], 0, main)
    end = automaton(mon, sent)
    out = res[0]
    types = [m["type"] for m in sent]
    base = {"before": [], "received": [], "after": ["websocket.accept", "websocket.send"], "closed": ["websocket.accept", "websocket.send", "websocket.close"],
            "denied": ["websocket.http.response.start", "websocket.http.response.body"] if case["ext"] else ["websocket.close"]}[when]
    over = when in ("closed", "denied")
    mon.eq(types[: len(base)], base, "exc-prefix", f"messages before the exception ({case})")
    rest = [m for m in sent[len(base):]]
    mon.nontrivial(what, when, case["ext"], case["handler"])
    if what == "value":
        mon.eq(rest, [], "exc-unhandled", "messages sent after an unhandled exception")
        mon.ok(isinstance(out, ValueError), "exc-raised", f"an unhandled exception ended the session with {out!r}")
    elif over:
        # nothing more may be sent; the misuse surfaces
        mon.n("exceptions after the end")
        mon.eq(rest, [], "exc-after-end", "messages sent after the session had ended")
        mon.ok(out is not None, "exc-after-end-raised", "an exception raised after the session ended disappeared")
    elif what == "http-exc":
        mon.n("exception denials")
        if when == "after":
            mon.ok(out is not None, "exc-raised", "an HTTPException after accept disappeared")
            mon.eq(rest, [], "exc-http-after", "messages sent for an HTTPException after accept")
        elif not case["ext"]:
            mon.eq([(m["type"], m.get("code"), m.get("reason") or "") for m in rest], [("websocket.close", 1000, "")], "exc-http-no-ext", "messages sent for an HTTPException before accept to a server without denial responses")
        else:
            # the default handler denies the handshake with the response
            status = 400 + case["code"] % 50
            ok = bool(rest) and rest[0]["type"] == "websocket.http.response.start" and rest[0]["status"] == status
            mon.ok(ok, "exc-http", f"HTTPException({status}) before accept sent {rest}, raised {out!r}")
            if ok:
                mon.eq(b"".join(m.get("body", b"") for m in rest[1:]), case["reason"].encode(), "exc-http-body", "body of the denial")
                mon.eq(dict(rest[0]["headers"]).get(b"x-h"), b"1", "exc-http-headers", "headers of the denial")
                mon.eq(end, "done", "exc-http-end", "the denial response is complete")
    else:
        mon.n("exception closes")
        code, reason = (case["code"], case["reason"]) if what == "ws-exc" else (3999, "custom")
        if what == "ws-exc" and case["handler"]:
            code, reason = 3998, f"handled {case['code']}"
        mon.eq([(m["type"], m.get("code"), m.get("reason") or "") for m in rest], [("websocket.close", code, reason)], "exc-close", f"messages sent after the exception ({case})")
        mon.ok(out is None, "exc-raised", f"a handled exception ended the session with {out!r}")


def run_tasks(case, mon):
    """Several tasks send over one WebSocket; what reaches the server is recorded when it is handed over."""
    with open(os.path.join(mon.tmp, "deny.txt"), "w") as f:
        f.write("F" * 10)
    sent, errors = [], []

    async def main():
        jit = Jit(case["seed"], case["jit"])

        async def receive():
            return {"type": "websocket.connect"}

        async def send(message):
            sent.append(dict(message))
            await jit()
            await jit()

        ws = WebSocket(ws_scope(extensions={"websocket.http.response": {}}), receive, send)
        for i, op in enumerate(case["pre"]):
            await perform(ws, op, i, mon.tmp)

        async def task(ops, k):
            for i, op in enumerate(ops):
                await jit()
                try:
                    await perform(ws, op, 10 * k + i, mon.tmp)
                except RuntimeError as exc:
                    errors.append(exc)

        async with anyio.create_task_group() as tg:
            for k, ops in enumerate(case["tasks"]):
                tg.start_soon(task, ops, k)

    run_async(case["backend"], case["seed"], main)
    end = automaton(mon, sent)
    mon.n("sessions shared by tasks")
    mon.n("illegal calls refused", len(errors))
    if case["pre"]:
        mon.eq(len(sent) - len(case["pre"]) + len(errors), sum(map(len, case["tasks"])), "tasks-count", f"calls answered by one message or one RuntimeError, of {case['tasks']}; sent {[m['type'] for m in sent]}")
    mon.nontrivial("tasks", case["pre"], end, tuple(m["type"] for m in sent), len(errors))


def run_close_app(case, mon):
    """WebSocketClose, the ASGI application that refuses."""
    from starlette.websockets import WebSocketClose

    sent = []

    async def send(m):
        sent.append(m)

    async def main():
        app = WebSocketClose(*case["args"], **case["kw"])
        for _ in range(2):
            await app(ws_scope("/"), None, send)

    anyio.run(main)
    code = (case["args"] + [case["kw"].get("code", 1000)])[0]
    reason = case["args"][1] if len(case["args"]) > 1 else case["kw"].get("reason")
    mon.n("close applications")
    mon.eq([(m["type"], m.get("code", 1000), m.get("reason") or "") for m in sent], [("websocket.close", code, reason or "")] * 2, "close-app", f"WebSocketClose(*{case['args']}, **{case['kw']})")
    mon.nontrivial(case["args"], case["kw"])


def run(case, mon):
    if case["kind"] == "close-app":
        run_close_app(case, mon)
    elif case["kind"] == "tasks":
        run_tasks(case, mon)
    elif case["kind"] == "exc":
        run_exc(case, mon)
    else:
        run_ops(case, mon)
