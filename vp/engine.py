"""Workload engine: generates cases, runs them in forked workers with the
monitors attached, merges what the monitors observed, and turns it into a
verdict (held / violated / inconclusive)."""
from __future__ import annotations

import collections
import functools
import gc
import hashlib
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


def digest(obj) -> str:
    return hashlib.blake2b(json.dumps(obj, sort_keys=True, default=repr).encode("utf8", "surrogatepass"), digest_size=8).hexdigest()


class Mon:
    """Collects what the monitors of one worker observed."""

    def __init__(self) -> None:
        self.events: collections.Counter = collections.Counter()
        self.sigs: set = set()
        self.violations: list = []
        self.case = None
        self.case_nontrivial = False
        self.tmp = None
        self.known: dict = {}
        self.known_seen: set = set()

    def n(self, key: str, k: int = 1) -> None:
        self.events[key] += k

    def nontrivial(self, *shape) -> None:
        """Mark the current case non-trivial; `shape` is what was observed."""
        self.case_nontrivial = True
        if shape:
            self.sigs.add("s:" + digest(shape))

    def fail(self, key: str, msg: str) -> None:
        if key in self.known:
            self.events["known finding observed: " + key] += 1
            if key in self.known_seen:
                return
            self.known_seen.add(key)
        if len(self.violations) < 200:
            self.violations.append({"key": key, "msg": msg[:3000], "case": self.case})

    def eq(self, got, want, key: str, what: str = "") -> bool:
        self.events["oracle comparisons"] += 1
        if got == want and type(got) is type(want) or got == want:
            return True
        self.fail(key, f"{what}: observed {short(got)}, the oracle requires {short(want)}")
        return False

    def ok(self, cond, key: str, msg: str = "") -> bool:
        self.events["oracle comparisons"] += 1
        if cond:
            return True
        self.fail(key, msg or key)
        return False


def short(x, n=700) -> str:
    r = repr(x)
    return r if len(r) <= n else r[: n // 2] + f"...<{len(r)} chars>..." + r[-n // 2 :]


# ---------------------------------------------------------------- payload specs
@functools.lru_cache(maxsize=64)
def _rnd(seed, n):
    return random.Random(seed).randbytes(n)


def mk(spec) -> bytes:
    """A JSON-able description of a byte string: 'latin-1 text' or [unit, n] or
    ['rnd', seed, n] or ['cat', spec...]."""
    if isinstance(spec, str):
        return spec.encode("latin-1")
    if spec[0] == "rnd":
        return _rnd(spec[1], spec[2])
    if spec[0] == "cat":
        return b"".join(mk(s) for s in spec[1:])
    if spec[0] == "rep":
        unit = spec[1].encode("latin-1")
        return (unit * (spec[2] // len(unit) + 1))[: spec[2]]
    raise ValueError(spec)


# ---------------------------------------------------------------- running
def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, mon: Mon, timeout: float) -> str:
    """Returns 'done' or 'hang'."""
    mon.case = case
    mon.case_nontrivial = False
    old = signal.signal(signal.SIGALRM, _alarm)
    hang = False
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            mod.run(case, mon)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        hang = True
    except Inconclusive:
        mon.n("inconclusive cases")
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as exc:  # noqa
        if _contains_timeout(exc):
            hang = True
        elif isinstance(exc, OSError) and exc.errno in (24, 28, 12, 11):
            raise
        else:
            tb = "".join(traceback.format_exception(exc))
            mon.fail("unexpected-exception:" + type(exc).__name__, "an operation that must succeed raised:\n" + tb[-2500:])
    signal.signal(signal.SIGALRM, old)
    if mon.case_nontrivial:
        mon.sigs.add("c:" + digest(case))
    return "hang" if hang else "done"


def _contains_timeout(exc, depth=0) -> bool:
    if exc is None or depth > 8:
        return False
    if isinstance(exc, CaseTimeout):
        return True
    if isinstance(exc, BaseExceptionGroup):
        if any(_contains_timeout(e, depth + 1) for e in exc.exceptions):
            return True
    return _contains_timeout(exc.__cause__, depth + 1) or _contains_timeout(exc.__context__, depth + 1)


def make_case(mod, i: int, fixed: list, seed: int, tier: str):
    if i < len(fixed):
        return fixed[i]
    rng = random.Random(f"{seed}:{mod.ID}:{i}")
    return mod.gen(rng, tier)


def _worker(mod, w, nw, fixed, seed, tier, max_cases, deadline, scratch, timeout):
    logging.disable(logging.CRITICAL)
    mon = Mon()
    mon.known = load_known().get(mod.ID, {})
    mon.tmp = os.path.join(scratch, f"w{w}")
    os.makedirs(mon.tmp)
    os.chdir(mon.tmp)
    tempfile.tempdir = mon.tmp
    samples, ran, hang = [], 0, None
    stop = os.path.join(scratch, "stop")
    if hasattr(mod, "worker_setup"):
        mod.worker_setup(mon)
    i = w
    gc.collect()
    gc.freeze()
    while i < max_cases:
        if i >= len(fixed) and (time.monotonic() > deadline or os.path.exists(stop)):
            break
        case = make_case(mod, i, fixed, seed, tier)
        status = run_one(mod, case, mon, timeout)
        ran += 1
        if mon.case_nontrivial and len(samples) < 2 and i >= len(fixed):
            samples.append(case)
        elif mon.case_nontrivial and len(samples) < 1:
            samples.append(case)
        if status == "hang":
            hang = case
            break
        if len(mon.violations) - len(mon.known_seen) >= 20:
            break
        i += nw
    if len(mon.violations) > len(mon.known_seen) or hang:
        open(stop, "w").close()
    with open(os.path.join(scratch, f"r{w}.tmp"), "wb") as f:
        pickle.dump(
            dict(events=mon.events, sigs=mon.sigs, violations=mon.violations, samples=samples, ran=ran, hang=hang), f
        )
    os.rename(os.path.join(scratch, f"r{w}.tmp"), os.path.join(scratch, f"r{w}"))


def _fork(fn, *args) -> int:
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        # workers must not write on the check's stdout
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        fn(*args)
        code = 0
    except BaseException:  # noqa
        traceback.print_exc()
    finally:
        sys.stderr.flush()
        os._exit(code)


def _wait(pids: dict, limit: float) -> dict:
    out = {}
    while pids and time.monotonic() < limit:
        for pid in list(pids):
            got, status = os.waitpid(pid, os.WNOHANG)
            if got:
                out[pids.pop(pid)] = os.waitstatus_to_exitcode(status)
        time.sleep(0.01)
    for pid, w in list(pids.items()):
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        out[w] = "killed"
    pids.clear()
    return out


def load_known() -> dict:
    """known_findings.txt: 'known: property=C01 key=<mechanism key> <text>' lines."""
    known = collections.defaultdict(dict)
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("known:"):
            parts = line.split(None, 3)
            prop = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            known[prop][key] = parts[3]
    return known


def check(mod, replay=None) -> int:
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536), hard))
    except Exception:
        pass
    known = load_known().get(mod.ID, {})
    scratch = tempfile.mkdtemp(prefix=f"vp-{mod.ID}-")
    try:
        return _check(mod, replay, t0, seed, tier, known, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(mod, replay, t0, seed, tier, known, scratch) -> int:
    quick = tier == "quick"
    case_timeout = getattr(mod, "CASE_TIMEOUT", 20.0)
    if replay:
        mon = Mon()
        mon.tmp = os.path.join(scratch, "w")
        os.makedirs(mon.tmp)
        tempfile.tempdir = mon.tmp
        data = json.load(open(replay))
        cwd = os.getcwd()
        os.chdir(mon.tmp)
        if hasattr(mod, "worker_setup"):
            mod.worker_setup(mon)
        status = run_one(mod, data["case"], mon, 60)
        os.chdir(cwd)
        if status == "hang":
            mon.fail("no-progress", "the case did not finish within 60 s")
        bad = [v for v in mon.violations if v["key"] not in known]
        for v in mon.violations:
            print(v["key"], "::", v["msg"])
        print("observed:", dict(mon.events))
        if bad:
            print(f"VIOLATION property={mod.ID} replay={replay}")
            return 1
        return 0

    fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
    max_cases, seconds = mod.BUDGET[tier]
    max_cases = max(max_cases, len(fixed))
    if os.environ.get("VP_SCALE"):
        seconds = seconds * float(os.environ["VP_SCALE"])
    nw = int(os.environ.get("VP_WORKERS", "8"))
    deadline = time.monotonic() + seconds
    pids = {}
    for w in range(nw):
        pids[_fork(_worker, mod, w, nw, fixed, seed, tier, max_cases, deadline, scratch, case_timeout)] = w
    codes = _wait(pids, deadline + case_timeout + (300 if quick else 1200))

    events: collections.Counter = collections.Counter()
    sigs: set = set()
    violations, samples, ran, errors = [], [], 0, []
    for w in range(nw):
        path = os.path.join(scratch, f"r{w}")
        if not os.path.exists(path):
            errors.append(f"worker {w} ended with {codes.get(w)} and left no result")
            continue
        res = pickle.load(open(path, "rb"))
        events.update(res["events"])
        sigs |= res["sigs"]
        violations += res["violations"]
        samples += res["samples"]
        ran += res["ran"]
        if res["hang"] is not None:
            # a stuck case is only believed if it is stuck again, alone, with a larger limit
            if any(v["key"] == "no-progress" for v in violations):
                continue
            sc = os.path.join(scratch, f"h{w}")
            os.makedirs(sc)
            pid = _fork(_worker, _Single(mod, res["hang"]), 0, 1, [res["hang"]], seed, tier, 1, 0, sc, 2 * case_timeout)
            _wait({pid: 0}, time.monotonic() + 2 * case_timeout + 60)
            rp = os.path.join(sc, "r0")
            again = pickle.load(open(rp, "rb")) if os.path.exists(rp) else None
            if again is None or again["hang"] is not None:
                violations.append(
                    {
                        "key": "no-progress",
                        "msg": f"the application made no progress: stuck after {case_timeout:.0f} s and, alone, after {2 * case_timeout:.0f} s (such a case takes milliseconds)",
                        "case": res["hang"],
                    }
                )
            else:
                violations += again["violations"]
                errors.append("a case timed out once and not again")

    new = [v for v in violations if v["key"] not in known]
    seen_known = sorted({v["key"] for v in violations if v["key"] in known})
    missing = [k for k in getattr(mod, "REQUIRED", ()) if not events.get(k)]
    wall = time.monotonic() - t0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={mod.ID} {known[k]}")
    replay_path = None
    if new:
        bykey = {}
        for v in new:
            bykey.setdefault(v["key"], []).append(v)
        for k, vs in list(bykey.items())[:6]:
            v = min(vs, key=lambda v: len(json.dumps(v["case"], default=repr)))
            path = os.path.join(rdir, f"{mod.ID}-{digest([k, v['case']])}.json")
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "key": k, "msg": v["msg"], "case": v["case"]}, f, indent=1, default=repr)
            replay_path = replay_path or path
            print(f"-- {k} ({len(vs)} times): {v['msg']}")
            print(f"   case: {short(v['case'], 1500)}")
            print(f"VIOLATION property={mod.ID} replay={path}")
    nontriv = sum(1 for s in sigs if s.startswith("c:"))
    evidence = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": nontriv,
            "rule": mod.RULE,
            "samples": [json.loads(json.dumps(_clip(s), default=repr)) for s in (samples[:4] or fixed[:1])],
            "observed_events": dict(sorted(events.items())),
            "distinct_observed_shapes": sum(1 for s in sigs if s.startswith("s:")),
            "fixed_boundary_cases": len(fixed),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    tmp = os.path.join(VERIF, "evidence", f".{mod.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{mod.ID}.json"))
    print(
        f"{mod.ID}: {ran} executions, {nontriv} distinct non-trivial cases, "
        f"{sum(events.values())} monitored events, {len(new)} violations, {wall:.1f} s"
    )
    if new:
        return 1
    if errors:
        print("INCONCLUSIVE: " + "; ".join(errors))
        return 3
    if missing:
        print("INCONCLUSIVE: the deciding monitors were never reached: " + ", ".join(missing))
        return 3
    unseen = [k for k in known if k not in seen_known]
    for k in unseen:
        print(f"note: listed finding {k!r} was not observed in this run")
    return 0


class _Single:
    def __init__(self, mod, case):
        self.__dict__.update(mod.__dict__)
        self.mod = mod

    def run(self, case, mon):
        return self.mod.run(case, mon)


def _clip(x, n=300):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + f"...<{len(x)}>"
    if isinstance(x, list):
        return [_clip(y, n) for y in x[:20]] + ([f"...<{len(x)} items>"] if len(x) > 20 else [])
    if isinstance(x, dict):
        return {k: _clip(v, n) for k, v in list(x.items())[:30]}
    return x
