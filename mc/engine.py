"""Stateless bounded model checker.

A *space* is a generator of cases written against a choice oracle (`ch.pick`) plus an executor that drives the real
code for one case and compares every observation with a reference model or oracle.  The generator's choice tree is
enumerated completely (optionally only up to a bound on the number of deviations from the default, i.e. first, option);
every leaf is executed, on worker processes, against the code in /repo.  Nothing is sampled.
"""
from __future__ import annotations

from . import env  # noqa: F401  isort:skip

import collections
import gc
import hashlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait as mp_wait
import os
import random
import resource
import signal
import sys
import time
import traceback

import numpy as np

VERIF = env.VERIF
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replay files go
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))
CASE_TIMEOUT = 60  # seconds of processor time
WALL_TIMEOUT = 240  # seconds
SOFT_MEMORY = 700 << 20
MAX_UNLISTED = int(os.environ.get("VERIF_MAXV", "12"))


class Choices:
    """One walk through the choice tree: replays `prefix`, then takes option 0 everywhere."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken: list[int] = []
        self.sizes: list[int] = []
        self.free: list[bool] = []

    def pick(self, name, options, free=False):
        options = list(options)
        assert options, f"no options for {name}"
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(options):
            raise RuntimeError(f"replay diverged at {name}: choice {c} of {len(options)}")
        self.taken.append(c)
        self.sizes.append(len(options))
        self.free.append(free)
        return options[c]

    def flag(self, name, free=False):
        return self.pick(name, (False, True), free=free)


def enumerate_cases(gen, bound=None):
    """Yield (choices, case) for every leaf with at most `bound` non-free deviations, fewest deviations first."""
    queue = collections.deque([((), 0)])
    nodes = 0
    buckets = {0: collections.deque([()])}
    cost = 0
    out = []
    while buckets:
        cost = min(buckets)
        queue = buckets[cost]
        if not queue:
            del buckets[cost]
            continue
        prefix = queue.popleft()
        ch = Choices(prefix)
        case = gen(ch)
        nodes += len(ch.taken) - len(prefix) + (1 if prefix else 0)
        for i in range(len(prefix), len(ch.taken)):
            extra = 0 if ch.free[i] else 1
            if bound is not None and cost + extra > bound:
                continue
            for alt in range(1, ch.sizes[i]):
                buckets.setdefault(cost + extra, collections.deque()).append((*ch.taken[:i], alt))
        if case is not None:
            out.append((tuple(ch.taken), case))
    return out, nodes


class Expectation(Exception):
    """Raised to abandon a case after a recorded violation."""


class Probe:
    """Collects what one execution did and saw."""

    def __init__(self):
        self.ops = 0
        self.checks = 0
        self.violations: list[tuple[str, str]] = []
        self._obs = hashlib.sha1()

    def op(self, n=1):
        self.ops += n

    def obs(self, *xs):
        for x in xs:
            self._obs.update(canon(x).encode())
        return xs[0] if len(xs) == 1 else xs

    def fail(self, kind, msg, stop=False):
        self.violations.append((kind, str(msg)[:600]))
        if stop:
            raise Expectation(kind)

    def expect(self, cond, kind, msg="", stop=False):
        self.checks += 1
        if not bool(cond):
            self.fail(kind, msg() if callable(msg) else msg, stop)
        return bool(cond)

    def equal(self, got, want, kind, where="", stop=False):
        self.checks += 1
        same = got == want
        if not (same if isinstance(same, bool) else np.all(same)):
            self.fail(kind, f"{where}: got {got!r}, expected {want!r}", stop)
            return False
        return True

    def close(self, got, want, tol, kind, where="", rel=0.0):
        self.checks += 1
        try:
            g, w = np.asarray(got, float), np.asarray(want, float)
            ok = g.shape == w.shape and bool(np.all((np.abs(g - w) <= tol + rel * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)))
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(kind, f"{where}: got {short(got)}, expected {short(want)} (tol {tol:g}, rel {rel:g})")
        return ok

    def raises(self, fn, kind, where="", exc=Exception):
        self.checks += 1
        self.ops += 1
        try:
            r = fn()
        except exc as e:
            self.obs(type(e).__name__)
            return True
        self.fail(kind, f"{where}: accepted ({short(r)}) but must be refused")
        return False

    def digest(self):
        return self._obs.hexdigest()


def short(x, n=160):
    s = np.array2string(x, threshold=8, precision=6) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def sig(v, digits=9):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, np.integer)):
        return str(int(v))
    v = float(v)
    if v == 0:
        return "0"
    return f"{v:.{digits}g}"


def canon(x, digits=9) -> str:
    """A canonical, order preserving text form; floats to 9 significant digits."""
    if x is None or isinstance(x, str):
        return repr(x)
    if isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating)):
        return sig(x, digits)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return "[" + ",".join(canon(v, digits) for v in x.ravel()) + "]"
        if x.size > 24 and x.dtype.kind == "f":
            with np.errstate(all="ignore"):
                e = np.where((x == 0) | ~np.isfinite(x), 0, np.floor(np.log10(np.abs(x))))
                m = np.round(x / 10.0 ** (e - digits + 1)) + 0.0
            return f"A{x.shape}#" + hashlib.sha1(e.astype(np.int64).tobytes() + m.tobytes()).hexdigest()[:20]
        return f"A{x.shape}" + ",".join(sig(v, digits) for v in x.ravel())
    if isinstance(x, dict):
        return "{" + ",".join(f"{canon(k, digits)}:{canon(v, digits)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(v, digits) for v in x) + "]"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(v, digits) for v in x)) + ">"
    if hasattr(x, "to_numpy"):
        return f"P{list(getattr(x, 'columns', []))}" + canon(x.to_numpy(), digits) + canon(x.index.to_numpy(), digits)
    return repr(x)


class Space:
    def __init__(self, name, gen, run, bound=None, note=""):
        self.name, self.gen, self.run, self.bound, self.note = name, gen, run, bound, note


# ---------------------------------------------------------------------------------------------------- execution
_SPACES: list[Space] = []
_CASES: list[list] = []


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def _init_worker():
    gc.collect()
    gc.freeze()
    gc.set_threshold(100000, 20, 20)
    signal.signal(signal.SIGPROF, _alarm)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))
    sys.setrecursionlimit(3000)


def _resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def _worker(conn):
    """Executes jobs until told to stop; replaced by a fresh process once it holds too much memory."""
    _init_worker()
    base = _resident()
    while True:
        job = conn.recv()
        if job is None:
            return
        out = _work(job)
        if _resident() - base > SOFT_MEMORY:
            gc.collect()
        retire = _resident() - base > 2 * SOFT_MEMORY
        conn.send((out, retire))
        if retire:
            return


class _Pool:
    """Forked workers with one job each.  A worker that dies or hangs loses its job, which is then retried, case by
    case; only a case that fails a second time is reported (the machine may have run out of memory)."""

    def __init__(self, n):
        self.ctx = mp.get_context("fork")
        self.n = n
        self.procs = {}  # conn -> [process, job, deadline]

    def _spawn(self):
        a, b = self.ctx.Pipe()
        others = list(self.procs)

        def target():
            for c in others:
                c.close()
            a.close()
            try:
                _worker(b)
            except (EOFError, KeyboardInterrupt, BrokenPipeError):
                pass

        pr = self.ctx.Process(target=target, daemon=True)
        pr.start()
        b.close()
        self.procs[a] = [pr, None, 0.0]
        return a

    def _drop(self, conn):
        pr = self.procs.pop(conn)[0]
        conn.close()
        if pr.is_alive():
            pr.join(0.5)
        if pr.is_alive():
            pr.kill()
        pr.join()
        return pr.exitcode

    def run(self, jobs):
        """Yields ("result", rows) and ("died", job, why)."""
        queue = collections.deque(jobs)
        retry = collections.deque()
        idle = [self._spawn() for _ in range(min(self.n, len(queue)))]
        tried = set()
        try:
            while queue or retry or any(v[1] is not None for v in self.procs.values()):
                while (queue or retry) and (idle or len(self.procs) < self.n):
                    conn = idle.pop() if idle else self._spawn()
                    job = queue.popleft() if queue else retry.popleft()
                    self.procs[conn][1:] = [job, time.time() + WALL_TIMEOUT * (job[2] - job[1])]
                    conn.send(job)
                busy = [c for c, v in self.procs.items() if v[1] is not None]
                ready = mp_wait(busy, timeout=5)
                now = time.time()
                for conn in busy:
                    pr, job, deadline = self.procs[conn]
                    why = None
                    if conn in ready:
                        try:
                            out, retire = conn.recv()
                        except (EOFError, OSError):
                            why = f"the process executing it died (exit code {self._drop(conn)})"
                        else:
                            if retire:
                                self._drop(conn)
                            else:
                                self.procs[conn][1] = None
                                idle.append(conn)
                            yield "result", out
                    elif now > deadline:
                        pr.kill()
                        self._drop(conn)
                        why = f"no result within {WALL_TIMEOUT}s"
                    if why:
                        if job[2] - job[1] == 1 and job in tried:
                            yield "died", job, why
                        else:
                            one = [(job[0], i, i + 1) for i in range(job[1], job[2])]
                            tried.update(one)
                            retry.extend(one)
        finally:
            for conn in list(self.procs):
                self.procs[conn][0].kill()
                self._drop(conn)


def execute(space, case):
    p = Probe()
    t = time.time()
    np.random.seed(12345)
    random.seed(12345)
    try:
        signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
        space.run(case, p)
    except Expectation:
        pass
    except _Timeout:
        p.fail("hang", f"no result within {CASE_TIMEOUT}s of processor time")
    except MemoryError:
        p.fail("memory", "ran out of 6 GB")
    except Exception as e:  # noqa: BLE001  the code under test failed where the model says it must not
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if "chainconsumer" in f.filename and "/verif/" not in f.filename]
        where = f"{os.path.basename(inner[-1].filename)}:{inner[-1].name}" if inner else f"{tb[-1].filename}:{tb[-1].lineno}"
        p.fail(f"crash:{type(e).__name__}", f"{e} at {where}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        from matplotlib import pyplot as plt

        plt.close("all")
    return p, time.time() - t


def _work(job):
    si, lo, hi = job
    out = []
    for ci in range(lo, hi):
        p, dt = execute(_SPACES[si], _CASES[si][ci][1])
        out.append((si, ci, p.ops, p.checks, p.digest(), p.violations, dt))
    return out


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matches(known, space, case, kind):
    if known.get("space", space) != space or kind not in known["kinds"]:
        return False
    return all(case.get(k) == v if not isinstance(v, list) else case.get(k) in v for k, v in known["input"].items())


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)


def run_check(prop, spaces, assumptions, tier, seed, only=None):
    global _SPACES, _CASES
    t0 = time.time()
    if only:
        spaces = [s for s in spaces if s.name in only]
    _SPACES = spaces
    _CASES = []
    nodes = []
    for s in spaces:
        cases, n = enumerate_cases(s.gen, s.bound)
        _CASES.append(cases)
        nodes.append(n)
    jobs = []
    for si, cases in enumerate(_CASES):
        # Small, interleaved jobs; simplest cases first within a space
        step = max(1, min(8, len(cases) // (WORKERS * 6) or 1))
        jobs += [(si, lo, min(lo + step, len(cases))) for lo in range(0, len(cases), step)]
    rng = random.Random(seed)
    rng.shuffle(jobs)  # the order of executions is the only thing the seed decides
    known = load_known(prop)
    hits: dict[int, tuple] = {}
    unlisted = []
    stats = [dict(executions=0, ops=0, comparisons=0, outcomes=set()) for _ in spaces]
    slow = []
    stopped = False
    pool = _Pool(WORKERS)
    events = pool.run(jobs)
    for kind_, *rest in events:
        if kind_ == "died":
            (si, ci, _), why = rest
            unlisted.append((si, ci, "died", why))
            continue
        for si, ci, ops, checks, dig, viol, dt in rest[0]:
            st = stats[si]
            st["executions"] += 1
            st["ops"] += ops
            st["comparisons"] += checks
            st["outcomes"].add(dig)
            slow.append((dt, si, ci))
            for kind, msg in viol:
                case = _CASES[si][ci][1]
                k = next((i for i, kn in enumerate(known) if matches(kn, spaces[si].name, case, kind)), None)
                if k is None:
                    unlisted.append((si, ci, kind, msg))
                else:
                    hits.setdefault(k, (si, ci, kind, msg))
        if len(unlisted) >= MAX_UNLISTED:
            stopped = True
            break
    events.close()
    unlisted.sort(key=lambda v: (sum(1 for c in _CASES[v[0]][v[1]][0] if c), v[0], v[1]))
    for k, kn in enumerate(known):
        if k in hits:
            print(f"KNOWN-FINDING: property={prop} {kn['what']}")
    replay = None
    for n, (si, ci, kind, msg) in enumerate(unlisted[:MAX_UNLISTED]):
        case = _CASES[si][ci][1]
        if n == 0:
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            h = hashlib.sha1(repr((prop, spaces[si].name, _CASES[si][ci][0])).encode()).hexdigest()[:10]
            replay = os.path.join(OUT, "replays", f"{prop}-{h}.json")
            with open(replay, "w") as f:
                json.dump(dict(property=prop, tier=tier, space=spaces[si].name, choices=_CASES[si][ci][0],
                               case=jsonable(case), kind=kind, message=msg,
                               rerun=f"/opt/venv/bin/python /verif/run.py {prop} --replay {replay}"), f, indent=1)
        print(f"  [{spaces[si].name}] {kind}: {msg}\n      case {json.dumps(jsonable(case))[:500]}")
    distinct = sum(len(s["outcomes"]) for s in stats)
    samples = []
    for si, cases in enumerate(_CASES):
        if cases:
            for ci in sorted({0, rng.randrange(len(cases))}):
                samples.append(dict(space=spaces[si].name, choices=list(cases[ci][0]), case=jsonable(cases[ci][1])))
    coverage = dict(
        states=distinct,
        transitions=sum(nodes) + sum(s["ops"] for s in stats),
        traces_validated_against_impl=sum(s["executions"] for s in stats),
        comparisons=sum(s["comparisons"] for s in stats),
        meaning="states: distinct observed outcomes of the real code; transitions: choice-tree edges enumerated plus "
        "operations executed on the real code; traces: complete executions of the real code compared with the "
        "reference model/oracle",
        spaces=[dict(name=s.name, note=s.note, deviation_bound=s.bound, leaves=len(c), executed=st["executions"],
                     choice_edges=n, operations=st["ops"], comparisons=st["comparisons"],
                     distinct_outcomes=len(st["outcomes"]))
                for s, c, n, st in zip(spaces, _CASES, nodes, stats)],
        exhaustive=not stopped,
        samples=samples[:12],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    if not only:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        path = os.path.join(OUT, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    if os.environ.get("VERIF_VERBOSE"):
        slow.sort(reverse=True)
        for dt, si, ci in slow[:4]:
            print(f"  slow {dt:.2f}s {spaces[si].name} {_CASES[si][ci][1]}")
        for sp in coverage["spaces"]:
            print("  ", {k: v for k, v in sp.items() if k != "note"})
    print(f"{prop} {tier}: states={distinct} transitions={coverage['transitions']} "
          f"traces={coverage['traces_validated_against_impl']} wall={ev['wall_s']}s violations={len(unlisted)}")
    if unlisted:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


def replay(spaces, path):
    with open(path) as f:
        r = json.load(f)
    space = next(s for s in spaces if s.name == r["space"])
    case = space.gen(Choices(tuple(r["choices"])))
    _init_worker()
    first = None
    for _ in range(2):  # the same choices must give the same verdict twice
        p, _dt = execute(space, case)
        res = (p.digest(), p.violations)
        assert first is None or first == res, "replay is not deterministic"
        first = res
    print(json.dumps(jsonable(case), indent=1))
    for kind, msg in p.violations:
        print(f"{kind}: {msg}")
    if p.violations:
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0
