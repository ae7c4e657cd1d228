from __future__ import annotations

import functools
import os
import warnings
from decimal import Decimal
from pathlib import Path

from starlette.config import Config, Environ, EnvironError
from starlette.datastructures import URL, CommaSeparatedStrings, Secret

from vp import gens

ID = "C37"
PROP = dict(
    title="Configuration follows its precedence, and read variables cannot change",
    statement=(
        "For every environment, .env file, prefix, key, cast and default, Config returns the value of the environment variable, else of the file (blank lines and comments ignored, surrounding quotes and space removed, = kept in values, the last of duplicate keys), else the default, else raises KeyError, each converted by the cast (bool from true/false/1/0 in any case, None defaults untouched) or raising ValueError. "
        "Environ is a mapping onto the given environment that raises EnvironError, changing nothing, for every set or delete of a key that has been read in any way (also through Config, also when it was missing), and allows all others. "
        "CommaSeparatedStrings holds exactly the items of the text, in order."
    ),
    over=["inputs", "histories"],
    quant="every content of environment and file, key, prefix, cast, default, and sequence of environment operations",
    why="tests read one file with eight keys and one environment with one key",
    files=["starlette/config.py", "starlette/datastructures.py"],
    mechanism=[("Config.get", "starlette/config.py:Config"), ("Environ", "starlette/config.py:Environ"), ("CommaSeparatedStrings", "starlette/datastructures.py")],
)
TECH = "runtime monitoring: reference model of the three layers and of the read set, compared after every operation"
RULE = "each case is an environment, a file and a sequence of lookups and environment operations; non-trivial when results were compared"
LEVEL_NOTE = "held on the generated environments, files and operation sequences"
BUDGET = {"quick": (200000, 6), "thorough": (2000000, 60)}
REQUIRED = ("lookups", "from environment", "from file", "from default", "missing", "casts refused", "booleans", "sets refused", "sets allowed", "deletes refused", "comma separated", "prefixed", "file missing")

KEYS = ["DEBUG", "KEY", "A", "B", "A_B", "key"]
CASTS = ["none", "bool", "int", "str", "float", "url", "secret", "css", "path", "func", "partial", "decimal"]


def rval(rng):
    return rng.choice(["", "true", "True", "FALSE", "false", "1", "0", "2", "yes", "tRuE", " 1 ", "5", "-3", "1.5", "x=y", "a b", "http://u:p@h/x", "a, b,c", "é", "#no comment", "x # y", "tail#", "#", gens.token(rng), "1_000"])


def fixed(tier):
    out = []
    for v in ("true", "TRUE", "True", "1", "false", "False", "0", "", "2", "yes", "no", "on", "t", " true", "none"):
        for where in ("env", "file", "default"):
            out.append(dict(kind="config", env=[["K", v]] if where == "env" else [], file=[["kv", "K", v, ""]] if where == "file" else [], prefix="", ops=[["get", "K", "bool", v if where == "default" else "UNDEF"]]))
    for d in (None, True, False, 1, 0, "5", "x", 5.5, "UNDEF"):
        for cast in CASTS:
            out.append(dict(kind="config", env=[], file=[], prefix="", ops=[["get", "K", cast, d], ["call", "K", cast, d]]))
    for prefix in ("", "APP_", "A"):
        ops = [["get", k, "none", "UNDEF"] for k in ("K", "APP_K", "PP_K", "ONLYFILE")] + [["get", "K", "none", "d"]]
        out.append(dict(kind="config", env=[["K", "plain"], ["APP_K", "pref"], ["AK", "ak"]], file=[["kv", "APP_ONLYFILE", "f", ""], ["kv", "ONLYFILE", "g", ""], ["kv", "K", "filek", ""]], prefix=prefix, ops=ops))
    for v in ("tail#", "#", "a#b", "x # y", "#x"):
        for q in ("", '"', "'"):
            out.append(dict(kind="config", env=[], file=[["line", "# K=commented"], ["line", "  #K=commented"], ["kv", "K", v, q], ["line", "#K=commented"]], prefix="", ops=[["get", "K", "none", "UNDEF"], ["get", "#K", "none", "UNDEF"], ["get", "# K", "none", "UNDEF"]]))
    out.append(dict(kind="config", env=[], file=None, prefix="", ops=[["get", "K", "none", "d"], ["get", "K", "none", "UNDEF"]]))
    for how in ("get", "[]", "in", "config", "items", "setdefault", "none"):
        for op in ("set", "del", "pop", "update"):
            for present in (True, False):
                out.append(dict(kind="environ", env=[["A", "1"], ["B", "2"]], ops=[[how, "A" if present else "N"], [op, "A" if present else "N", "9"], [op, "B", "8"]]))
    for items in (["a"], ["a", "b"], ["127.0.0.1", "localhost"], ["#fff", "a#b"], ["a b", "c"], ["x=y", "*"], ["é"], ["http://h/#frag"], []):
        out.append(dict(kind="css", items=items, sep=", "))
        out.append(dict(kind="css", items=items, sep=","))
    return out


def gen(rng, tier):
    r = rng.random()
    if r < 0.6:
        env = [[rng.choice(["", "", "APP_"]) + rng.choice(KEYS), rval(rng)] for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.1:
            file = None
        else:
            file = []
            for _ in range(rng.randrange(0, 7)):
                if rng.random() < 0.75:
                    file.append(["kv", rng.choice(["", "", "APP_"]) + rng.choice(KEYS), rval(rng), rng.choice(["", "", '"', "'"])])
                else:
                    file.append(["line", rng.choice(["", "# comment", "#A=commented", "   # KEY=indented comment", "no equals sign", "   ", "\t"])])
        ops = []
        for _ in range(rng.randrange(1, 8)):
            ops.append([rng.choice(["get", "call"]), rng.choice(KEYS + KEYS + ["MISSING", "#A", "# comment", "# KEY"]), rng.choice(CASTS + ["none", "bool", "int"]), rng.choice(["UNDEF", "UNDEF", None, "dflt", "1", 5, True, "true"])])
        return dict(kind="config", env=env, file=file, prefix=rng.choice(["", "", "APP_"]), ops=ops)
    if r < 0.9:
        env = [[k, rval(rng)] for k in rng.sample(KEYS, rng.randrange(0, 5))]
        ops = []
        for _ in range(rng.randrange(1, 15)):
            k = rng.choice(KEYS + ["N"])
            o = rng.choice(["get", "[]", "in", "config", "iter", "len", "set", "set", "del", "pop", "update", "setdefault"])
            ops.append([o, k, rval(rng)])
        return dict(kind="environ", env=env, ops=ops)
    return dict(kind="css", items=[rng.choice(["a", "b.c", "#x", "a b", "1", "*", "x:y", gens.token(rng), "é", "a#b"]) for _ in range(rng.randrange(0, 6))], sep=rng.choice([",", ", ", " , "]))


def my_cast(v):
    return ("cast", str(v))


CAST = {"none": None, "bool": bool, "int": int, "str": str, "float": float, "url": URL, "secret": Secret, "css": CommaSeparatedStrings, "path": Path, "func": my_cast, "partial": functools.partial(int, base=2), "decimal": float}


def apply_cast(name, v):
    """-> ('ok', value) or ('ValueError',)"""
    c = CAST[name]
    if c is None or v is None:
        return ("ok", v)
    if c is bool and isinstance(v, str):
        m = {"true": True, "1": True, "false": False, "0": False}
        return ("ok", m[v.lower()]) if v.lower() in m else ("ValueError",)
    try:
        return ("ok", c(v))
    except (TypeError, ValueError):
        return ("ValueError",)


def plain(v):
    if isinstance(v, Secret):
        try:
            return ("secret", str(v))
        except TypeError:  # a value that is not text
            return ("secret", "<not text>")
    if isinstance(v, CommaSeparatedStrings):
        return ("css", list(v))
    if isinstance(v, URL):
        try:
            return ("url", str(v))
        except TypeError:
            return ("url", "<not text>")
    if isinstance(v, float):
        return ("float", repr(v))
    return (type(v).__name__, v)


def run_config(case, mon):
    env = {k: v for k, v in case["env"]}
    files = {}
    path = "test.env"
    if case["file"] is None:
        path = "nope.env"
        mon.n("file missing")
    else:
        lines = []
        for e in case["file"]:
            if e[0] == "line":
                lines.append(e[1])
                continue
            _, k, v, q = e
            if v.startswith(("'", '"')) or v.endswith(("'", '"')):
                v = "plain"
            lines.append(f"{k}={q}{v}{q}" if len(v) % 2 else f"  {k} = {q}{v}{q}  ")
            files[k] = v if q else v.strip()
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if len(lines) % 2 else ""))
    envs = [dict(env), Environ(dict(env))]
    for which, e in enumerate(envs):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            cfg = Config(path if which else Path(path), environ=e, env_prefix=case["prefix"])
        if case["file"] is None:
            mon.ok(any("nope.env" in str(x.message) for x in w), "file-missing", f"warnings for a missing file: {w}")
        for op, key, cast, default in case["ops"]:
            full = case["prefix"] + key
            if case["prefix"]:
                mon.n("prefixed")
            if full in env:
                raw, src = env[full], "from environment"
            elif full in files:
                raw, src = files[full], "from file"
            elif default != "UNDEF":
                raw, src = default, "from default"
            else:
                raw, src = None, "missing"
            mon.n(src)
            mon.n("lookups")
            want = ("KeyError",) if src == "missing" else apply_cast(cast, raw)
            if cast == "bool":
                mon.n("booleans")
            fn = cfg.get if op == "get" else cfg
            kw = {} if default == "UNDEF" else {"default": default}
            if cast != "none":
                kw["cast"] = CAST[cast]
            try:
                got = ("ok", fn(key, **kw))
            except Exception as exc:
                got = (type(exc).__name__,)
                if want == ("ValueError",) or want == ("KeyError",):
                    mon.ok(full in str(exc), "message", f"the error does not name {full!r}: {exc}")
            if want == ("ValueError",):
                mon.n("casts refused")
            g = got if got[0] != "ok" else ("ok", plain(got[1]))
            x = want if want[0] != "ok" else ("ok", plain(want[1]))
            mon.eq(g, x, "value", f"config({key!r}, cast={cast}, default={default!r}) with environment {env}, file {files}, prefix {case['prefix']!r}")
    mon.nontrivial(len(env), len(files), tuple(o[2] for o in case["ops"]), case["prefix"])


def run_environ(case, mon):
    base = {k: v for k, v in case["env"]}
    real = dict(base)
    e = Environ(real)
    cfg = Config(environ=e)
    read = set()
    model = dict(base)
    for i, op in enumerate(case["ops"]):
        o, k = op[0], op[1]
        v = op[2] if len(op) > 2 else None
        what = f"{case['ops'][: i + 1]} on {base}"
        if o in ("get", "[]", "in", "config", "setdefault"):
            want = model.get(k)
            if o == "get":
                got = e.get(k)
            elif o == "[]":
                try:
                    got = e[k]
                except KeyError:
                    got = None
            elif o == "in":
                got = want if (k in e) == (k in model) else "WRONG"
            elif o == "config":
                got = cfg(k, default=None)
            else:
                try:
                    got = e.setdefault(k, v or "d")
                    if k not in model:
                        # setdefault reads the key before it sets it
                        mon.fail("set-after-read", f"{what}: setdefault set a key it had just read")
                        return
                except EnvironError:
                    got = want
                    mon.ok(k not in model, "refused", f"{what}: setdefault of a present key raised")
            read.add(k)
            mon.eq(got, want, "read", what)
        elif o == "items":
            mon.eq(dict(e.items()), model, "items", what)
            read |= set(model)
        elif o == "iter":
            mon.eq(sorted(e), sorted(model), "iter", what)
        elif o == "len":
            mon.eq(len(e), len(model), "len", what)
        elif o == "none":
            continue
        elif o in ("set", "update"):
            try:
                if o == "set":
                    e[k] = v
                else:
                    e.update({k: v})
                out = "done"
                model[k] = v
            except EnvironError:
                out = "refused"
            mon.eq(out, "refused" if k in read else "done", "set-after-read", what)
            mon.n("sets refused" if out == "refused" else "sets allowed")
        elif o in ("del", "pop"):
            try:
                if o == "del":
                    del e[k]
                else:
                    e.pop(k)
                out = "done"
                model.pop(k, None)
            except EnvironError:
                out = "refused"
            except KeyError:
                out = "missing"
            if o == "pop":
                # pop reads the value first: it can never take it away
                want = "refused" if k in model else "missing"
                if out == "done":
                    want = "refused"
                read.add(k)
            else:
                want = "refused" if k in read else "done" if out == "done" else "missing"
            mon.eq(out, want, "delete-after-read", what)
            mon.n("deletes refused", int(out == "refused"))
        if not mon.eq(real, model, "environment", f"{what}: the underlying environment"):
            return
    mon.n("lookups")
    mon.nontrivial("environ", tuple(o[0] for o in case["ops"]), len(read))


def run_css(case, mon):
    items = case["items"]
    for made in (CommaSeparatedStrings(case["sep"].join(items)), CommaSeparatedStrings(list(items)), CommaSeparatedStrings(tuple(items))):
        mon.n("comma separated")
        mon.eq(list(made), items, "css", f"items of {case['sep'].join(items)!r}")
        mon.eq(len(made), len(items), "css", "len")
        mon.eq([made[i] for i in range(len(items))], items, "css", "indexing")
        mon.eq(list(made[1:]), items[1:], "css", "slicing")
        mon.eq(("a" in made, "zz" in made), ("a" in items, False), "css", "in")
        mon.eq(repr(made), f"CommaSeparatedStrings({items!r})", "css", "repr")
        mon.eq(str(made), ", ".join(repr(x) for x in items), "css", "str")
        mon.eq(list(CommaSeparatedStrings(str(made))), items, "css", f"items of {str(made)!r}")
    quoted = ",".join('"%s"' % x for x in items)
    mon.eq(list(CommaSeparatedStrings(quoted)), items, "css", f"items of {quoted!r}")
    mon.nontrivial("css", len(items), case["sep"])


def run(case, mon):
    {"config": run_config, "environ": run_environ, "css": run_css}[case["kind"]](case, mon)
