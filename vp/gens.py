"""Seeded generators shared by the workloads."""
from __future__ import annotations

import random
import string

TOKEN = string.ascii_letters + string.digits + "-_"
UNI = ["é", "ß", "日本", "😀", "\u202e", "Ω", "\u00a0", "İ", "ſ", "\u2028"]
URLISH = ["%", "%2F", "%00", "?", "#", "&", "=", ";", "+", " ", "//", "..", ".", "\\", ":", "@", "{a}", "{", "}", "*", "$", "^", "|", '"', "'", "<", ">", ",", "~", "!", "(", ")", "[", "]"]


def token(rng, lo=1, hi=12, alphabet=TOKEN):
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(lo, hi + 1)))


def lower(rng, lo=1, hi=8):
    return token(rng, lo, hi, string.ascii_lowercase)


def text(rng, lo=0, hi=10, specials=True, uni=True, ctl=False):
    out = []
    for _ in range(rng.randrange(lo, hi + 1)):
        r = rng.random()
        if r < 0.55:
            out.append(rng.choice(TOKEN))
        elif r < 0.75 and specials:
            out.append(rng.choice(URLISH))
        elif r < 0.9 and uni:
            out.append(rng.choice(UNI))
        elif ctl:
            out.append(rng.choice("\t\n\r\x00\x01\x7f"))
        else:
            out.append(rng.choice(string.ascii_letters))
    return "".join(out)


def header_name(rng):
    if rng.random() < 0.35:
        return rng.choice(["x-a", "X-B", "Content-Language", "ETag", "vary", "X-Frame-Options", "Cache-Control", "x-a-b", "Server", "Link"])
    return rng.choice(string.ascii_letters) + token(rng, 0, 14)


def header_value(rng, latin=True):
    n = rng.choice([0, 1, 3, 10, 60])
    pool = string.ascii_letters + string.digits + " -_=;,/\"'()<>@:?[]{}*&%$#!~^|\\+."
    if latin and rng.random() < 0.3:
        pool += "éüÿ\xa0\xad"
    return "".join(rng.choice(pool) for _ in range(n)).strip()


def cased(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def json_value(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < 0.5:
        return rng.choice(
            [None, True, False, 0, -1, 1, 10**12, 2**63, 2**70, -(2**64), 0.0, -0.0, 1.5, 1e300, 5e-324, 0.1, "", "é", "日本", "😀", "a\"b\\c", "</script>", "\u2028", "\x00\x1f", text(rng, 0, 20, ctl=True)]
        )
    if r < 0.75:
        return [json_value(rng, depth + 1) for _ in range(rng.randrange(0, 5))]
    return {text(rng, 0, 6, ctl=True): json_value(rng, depth + 1) for _ in range(rng.randrange(0, 5))}


def body_spec(rng, big=True):
    """A payload description (see engine.mk) with sizes around internal boundaries."""
    r = rng.random()
    if r < 0.2:
        return text(rng, 0, 12, uni=False)
    sizes = [0, 1, 2, 3, 10, 100, 499, 500, 501, 1000, 4096]
    if big:
        sizes += [65535, 65536, 65537, 131072, 131073, 200000]
    n = rng.choice(sizes)
    if rng.random() < 0.5:
        return ["rnd", rng.randrange(10**6), n]
    return ["rep", rng.choice(["a", "ab", "0123456789", "\r\n", "\xff\x00"]), n]


def backend(rng):
    return rng.choice(["asyncio", "asyncio", "asyncio", "trio"])
