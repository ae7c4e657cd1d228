from __future__ import annotations

import dataclasses
import json
import logging
import os
import string
import traceback

from starlette.applications import Starlette
from starlette.config import Config, Environ
from starlette.datastructures import URL, MultiDict, Secret, State
from starlette.responses import PlainTextResponse
from starlette.routing import Route

from vp import gens
from vp.asgi import drive, http_scope

ID = "C36"
PROP = dict(
    title="Secrets and URL passwords never show in representations or tracebacks",
    statement=(
        "For every value, the repr of a Secret, of anything that holds it (containers, dataclasses, exceptions, State, MultiDict, Config results), formatted with !r or %r, in a log record or in a traceback or debug error page that mentions it, never contains the value, its length or a part of it; only str() gives it, exactly, and bool() tells whether it is empty. "
        "For every URL that holds a password (any user, host form, port, special character, no host), its repr shows the URL with the password masked and every other part unchanged, while str() keeps it."
    ),
    over=["inputs"],
    quant="every secret text and every URL with a password, in every representation",
    why="tests look at one repr of one short secret",
    files=["starlette/datastructures.py", "starlette/config.py", "starlette/middleware/errors.py"],
    mechanism=[("Secret.__repr__/__str__", "starlette/datastructures.py:Secret"), ("URL.__repr__", "starlette/datastructures.py:URL")],
)
TECH = "runtime monitoring: a taint marker (random secret) searched for in every representation the real code produces"
RULE = "each case is one secret or URL shown in every representation; non-trivial when outputs were searched"
LEVEL_NOTE = "held on the generated secrets and URLs"
BUDGET = {"quick": (200000, 6), "thorough": (2000000, 60)}
REQUIRED = ("representations searched", "url representations", "debug pages", "tracebacks", "str kept", "empty secrets", "urls without host", "passwords equal to other parts")


def marker(rng):
    # letters of no other text around it
    return "".join(rng.choice("QZXJKqzxjk") for _ in range(rng.choice([1, 4, 8, 20]))) + "Zq9"


def fixed(tier):
    out = [dict(kind="secret", value=v) for v in ("", "Zq9ZqX", "**********", "'", "Zq9\n", "é", " ", "0", "Zq9" * 500)]
    for host in ("h.test", "[::1]", "", "127.0.0.1", "H.Test"):
        for user in ("user", "", "u%40x", "a.b"):
            for port in (None, 80, 5432):
                for pw in ("Zq9Zq", "Zq9@Zq", "Zq9:Zq", "Zq9%2FZq", "Zq9'\"Zq", "Zq9é"):
                    out.append(dict(kind="url", scheme="postgresql", user=user, pw=pw, host=host, port=port, path="/db", query="x=1", fragment="f"))
    return out


def gen(rng, tier):
    if rng.random() < 0.4:
        return dict(kind="secret", value=rng.choice([marker(rng), marker(rng) + gens.text(rng, 0, 9, ctl=True), gens.text(rng, 0, 5)]))
    sp = rng.choice(["", "@", ":", "%2F", "'", '"', "\\", "é", "$", "*", "+", "="])
    if rng.random() < 0.15:
        pw = rng.choice(["p", "a", "Zq9", "h", "user", ":", "8000", "//", "*"])
        echo = rng.choice([f":{pw}@", pw, f"{pw}@", f":{pw}"])
        return dict(kind="url", echo=True, scheme="https", user=rng.choice(["user", pw.strip("/:") or "u", ""]), pw=pw.strip("/") or "u", host=rng.choice(["h.test", "user", "p"]), port=rng.choice([None, 8000]), path=rng.choice(["", "/", "/x" + echo]), query=rng.choice(["", "q=x" + echo + "y"]), fragment=rng.choice(["", "f" + echo]))
    return dict(kind="url", scheme=rng.choice(["http", "https", "postgresql+asyncpg", "ws", "redis"]), user=rng.choice(["user", "", "a.b", "admin"]), pw=marker(rng) + sp + marker(rng), host=rng.choice(["h.test", "[::1]", "", "10.0.0.1", "[fe80::1%25en0]"]), port=rng.choice([None, 1, 443, 8000]),
                path=rng.choice(["", "/", "/db", "/a b/c"]), query=rng.choice(["", "q=1&w=2"]), fragment=rng.choice(["", "frag"]))


@dataclasses.dataclass
class Settings:
    key: object
    other: int = 1


class Err(Exception):
    def __init__(self, key):
        super().__init__("bad", key)
        self.key = key


def shown(obj, mon):
    """Every way in which an object ends up in text without str() being asked for it."""
    out = {}
    out["repr"] = repr(obj)
    out["!r"] = f"{obj!r}"
    out["%r"] = "%r" % (obj,)
    out["list"] = str([obj])
    out["dict"] = str({"k": obj})
    out["tuple"] = repr((1, obj))
    out["dataclass"] = repr(Settings(obj))
    out["exception"] = repr(Err(obj)) + str(Err(obj))
    out["multidict"] = repr(MultiDict([("k", obj)]))
    out["state"] = repr(State({"k": obj})) + repr(vars(State({"k": obj})))
    out["log"] = logging.LogRecord("n", 20, "p", 1, "key is %r in %s", (obj, [obj]), None).getMessage()
    out["vars"] = repr(dict(vars(Settings(obj))))
    try:
        raise Err(obj)
    except Err:
        out["traceback"] = traceback.format_exc()
    try:
        {}[obj] if obj.__class__.__hash__ else {}["k"]
    except (KeyError, TypeError) as exc:
        out["keyerror"] = repr(exc) + str(exc)
    mon.n("tracebacks")
    mon.n("representations searched", len(out))
    return out


def debug_page(make, headers, mon):
    async def endpoint(request):
        key = make()
        raise Err(key)

    app = Starlette(debug=True, routes=[Route("/", endpoint)])
    t = drive(app, http_scope(headers=headers))
    mon.n("debug pages")
    mon.ok(t.status == 500 and b"Err" in t.body, "debug-page", f"debug page: {t.status}")
    return t.body.decode()


def run(case, mon):
    if case["kind"] == "secret":
        v = case["value"]
        os.environ["VP_SECRET"] = v.replace("\x00", "")
        if "\x00" in v:
            v = v.replace("\x00", "")
        cfg = Config(environ=Environ(dict(os.environ)))
        made = [Secret(v), cfg("VP_SECRET", cast=Secret), cfg.get("VP_NOPE", cast=Secret, default=v)]
        for s in made:
            mon.eq(str(s), v, "str", "str() of a Secret")
            mon.eq(f"{s}", v, "str", "a formatted Secret")
            mon.n("str kept")
            mon.eq(bool(s), bool(v), "bool", f"bool(Secret({v!r}))")
            if not v:
                mon.n("empty secrets")
            out = shown(s, mon)
            same = shown(Secret("another value of another length"), mon)
            for k, text in out.items():
                # a secret is shown as any other is: nothing depends on its value
                mon.eq(text.replace(hex(id(s)), ""), same[k].replace(hex(id(s)), ""), "secret-shown:" + k, f"{k} of Secret({v!r}) depends on the value") if "0x" not in text and k not in ("traceback",) else None
                if len(v) > 2 and set(v) != {"*"} and "Zq9" in v:
                    mon.ok(v not in text and "Zq9" not in text, "secret-shown:" + k, f"{k} of a Secret shows its value {v!r}: {text[-300:]!r}")
        if "Zq9" in v:
            for headers in ([("accept", "text/html")], []):
                page = debug_page(lambda: Secret(os.environ["VP_SECRET"]), headers, mon)
                mon.ok("Zq9" not in page, "secret-in-debug-page", f"the debug page shows the secret {v!r}")
        os.environ.pop("VP_SECRET")
        mon.nontrivial("secret", len(v))
        return
    c = case
    netloc = f"{c['user']}:{c['pw']}@{c['host']}" + (f":{c['port']}" if c["port"] is not None else "")
    masked_netloc = netloc[: len(c["user"])] + ":********" + netloc[len(c["user"]) + 1 + len(c["pw"]) :]
    tail = c["path"] + (f"?{c['query']}" if c["query"] else "") + (f"#{c['fragment']}" if c["fragment"] else "")
    text = f"{c['scheme']}://{netloc}{tail}"
    u = URL(text)
    if not c["host"]:
        mon.n("urls without host")
    mon.eq(str(u), text, "url-str", "str() of a URL")
    mon.n("str kept")
    mon.eq(repr(u), f"URL({f'{c['scheme']}://{masked_netloc}{tail}'!r})", "url-repr", "repr of a URL with a password")
    if c.get("echo"):
        # the text of the password is also that of other parts, which are to be shown
        mon.n("passwords equal to other parts")
        mon.nontrivial("echo", c["user"], c["pw"], c["path"], c["query"])
        return
    for k, out in shown(u, mon).items():
        mon.n("url representations")
        mon.ok(c["pw"] not in out and "Zq9" not in out, "password-shown:" + k, f"{k} shows the password: {out[-300:]!r}")
    for v in (u.replace(path="/other"), u.replace(scheme="x"), u.include_query_params(a=1)):
        mon.ok("Zq9" not in repr(v) and c["pw"] in str(v), "password-shown:edited", repr(v))
    free = u.replace(username=None, password=None)
    mon.ok("Zq9" not in str(free) and "***" not in repr(free), "removed", repr(free))
    if c["scheme"].startswith("http") and c["host"] and c["user"]:
        os.environ["VP_PW"] = text
        for headers in ([("accept", "text/html")], []):
            page = debug_page(lambda: URL(os.environ["VP_PW"]), headers, mon)
            mon.ok("Zq9" not in page, "password-in-debug-page", f"the debug page shows the password of {text!r}")
        os.environ.pop("VP_PW")
    mon.nontrivial("url", bool(c["user"]), c["host"], c["port"])
