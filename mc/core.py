"""Exploration engine: enumerates a bounded space of executions of the real code,
checks an oracle on each of them and reports what was covered.

A check module (mc/checks/cXX.py) defines

  PROPERTY, TECHNIQUE_RULE, ASSUMPTIONS
  cases(tier)  -> iterable of JSON-able case descriptors, simplest first
  run(case)    -> Outcome            (executed in a worker process)

and the engine does the rest.  Nothing is sampled: every case of the tier is executed.
"""

import contextlib
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CASE_CPU_LIMIT = 90.0  # seconds of CPU time; a normal case needs well under 5


TIER = "quick"


class CaseTimeout(BaseException):
    "raised inside a worker when one case uses absurdly much CPU time"


MEM_LIMIT = 3 << 30  # address space of a worker process


class Violation(Exception):
    "the oracle of a check is violated by the execution under test"

    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class Outcome:
    """What one case covered.

    states: set of ints (hashes of canonical states), transitions/traces: counts,
    outcomes: set of small hashables (distinct observed outcomes)"""

    __slots__ = ("states", "transitions", "traces", "outcomes", "sample")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.sample = None

    def state(self, *parts):
        self.states.add(h64(*parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n


def h64(*parts):
    "64-bit hash of a canonical, printable description of a state"
    return int.from_bytes(
        hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big"
    )


def rnd(x, n=9):
    "canonical (rounded, -0 free) nested tuple of floats"
    import numpy as np

    a = np.asarray(x, dtype=float)
    return tuple((np.round(a, n) + 0.0).ravel().tolist())


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def load_trusspy():
    "import trusspy from the working tree of the repository, nothing else"
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import trusspy

    if not os.path.abspath(trusspy.__file__).startswith(src + os.sep):
        raise RuntimeError("trusspy imported from " + trusspy.__file__)
    import numpy as np

    np.seterr(all="ignore")
    return trusspy


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    "execute one case; returns (Outcome or None, failure or None)"
    so = sys.stdout
    cwd = os.getcwd()
    sys.stdout = NullOut()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(
        signal.ITIMER_PROF, getattr(mod, "CPU_LIMIT", {}).get(TIER, CASE_CPU_LIMIT), 1.0
    )
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = mod.run(case)
        return out, None
    except Violation as v:
        return None, dict(msg=v.msg, key=v.key, detail=_jsonable(v.detail))
    except CaseTimeout:
        return None, dict(msg="the execution does not end (CPU limit)", key="timeout")
    except MemoryError:
        return None, dict(msg="the execution runs out of memory", key="memory")
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return None, dict(
            msg="exception %s: %s" % (type(e).__name__, str(e)[:300]),
            key="exception",
            detail=dict(traceback=tb),
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = so
        os.chdir(cwd)


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set)):
            return [_jsonable(v) for v in x]
        if hasattr(x, "tolist"):
            return _jsonable(x.tolist())
        return repr(x)


_MOD = None


def _init(name):
    global _MOD
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # an execution that eats memory is an exception of its case, not the end of all
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    load_trusspy()
    _MOD = importlib.import_module("mc.checks." + name)


def _chunk(chunk):
    "worker: run a chunk of consecutive cases, stop at the first failure of each key"
    states, outcomes, fails = set(), set(), []
    transitions = traces = n = 0
    samples = []
    for idx, case in chunk:
        out, fail = run_case(_MOD, case)
        n += 1
        if fail is not None:
            fails.append((idx, case, fail))
            if len(fails) >= 50 or fail.get("key") in ("timeout", "memory"):
                break
            continue
        states |= out.states
        outcomes |= out.outcomes
        transitions += out.transitions
        traces += out.traces
        if out.sample is not None and len(samples) < 1:
            samples.append(out.sample)
    return n, states, transitions, traces, outcomes, samples, fails


def results(pool, source):
    "the results in order; a worker process that dies takes the execution with it"
    pids = sorted(p.pid for p in pool._pool)
    it = pool.imap(_chunk, source)
    while True:
        try:
            yield it.next(2.0)
        except StopIteration:
            return
        except mp.TimeoutError:
            if sorted(p.pid for p in pool._pool) != pids:
                died = dict(msg="the process executing the code died", key="died")
                yield 0, set(), 0, 0, set(), [], [(-1, None, died)]
                return


def chunked(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def read_known():
    "known findings: lines 'finding: property=<id> key=<key> <text>'"
    known = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property="):
                    rest = line[len("finding: property=") :]
                    pid, rest = rest.split(" ", 1)
                    key, text = rest[len("key=") :].split(" ", 1)
                    known.setdefault(pid, {})[key] = text
    except FileNotFoundError:
        pass
    return known


def main(name, tier, jobs=None, replay=None):
    global TIER
    TIER = tier
    t0 = time.time()
    pid = name.upper()
    load_trusspy()
    mod = importlib.import_module("mc.checks." + name)
    if replay:
        return do_replay(mod, pid, replay)
    jobs = jobs or min(8, os.cpu_count() or 1)
    known = read_known().get(pid, {})
    seen_known = set()
    states, outcomes, samples = set(), set(), []
    transitions = traces = n = total_fail = 0
    first = None
    size = getattr(mod, "CHUNK", 8)
    source = chunked(enumerate(mod.cases(tier)), size)
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, _init, (name,)) as pool:
        for r in results(pool, source):
            n += r[0]
            states |= r[1]
            transitions += r[2]
            traces += r[3]
            outcomes |= r[4]
            if len(samples) < 3 and r[5]:
                samples.append(r[5][0])
            for idx, case, fail in r[6]:
                total_fail += 1
                if fail.get("key") in known:
                    seen_known.add(fail["key"])
                elif first is None:
                    first = (idx, case, fail)
            if first is not None:
                pool.terminate()
                break
    extra = {}
    if first is None and hasattr(mod, "final"):
        # a whole-space obligation computed in the parent (e.g. vacuity guard)
        extra = mod.final(tier, dict(states=len(states), outcomes=outcomes, n=n)) or {}
        if extra.get("fail"):
            first = (-1, None, dict(msg=extra.pop("fail"), key="final"))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    wall = time.time() - t0
    cov = dict(
        states=len(states),
        transitions=transitions,
        traces_validated_against_impl=traces,
        evaluations=n,
        distinct_outcomes=len(outcomes),
        rule=mod.RULE,
        samples=samples or ["(none)"],
        exhaustive=first is None,
        bound=mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND,
    )
    cov.update({k: v for k, v in extra.items() if k != "fail"})
    ev = dict(
        property=pid,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=_jsonable(cov),
        assumptions=list(mod.ASSUMPTIONS),
        wall_s=round(wall, 2),
        violations=0 if first is None else 1,
    )
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (pid, tier, n, len(states), transitions, traces, len(outcomes), wall)
    )
    if first is None:
        if n == 0 or traces == 0:
            print("nothing was explored", file=sys.stderr)
            return 2
        return 0
    idx, case, fail = first
    # replay in this (fresh with respect to the case) process before reporting
    again = None
    if fail.get("key") in ("timeout", "memory"):
        again = fail
    elif case is not None:
        _, again = run_case(mod, case)
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, pid + ".json")
    with open(path, "w") as f:
        json.dump(
            _jsonable(
                dict(
                    property=pid,
                    case_index=idx,
                    case=case,
                    failure=fail,
                    reproduced_alone=again is not None,
                )
            ),
            f,
            indent=1,
        )
    print("case: " + json.dumps(_jsonable(case))[:1500])
    print("failure: " + fail["msg"])
    if fail.get("detail"):
        print("detail: " + json.dumps(fail["detail"])[:3000])
    if again is None and case is not None:
        print("note: only fails after the earlier cases of the same process")
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def do_replay(mod, pid, path):
    with open(path) as f:
        rec = json.load(f)
    out, fail = run_case(mod, rec["case"])
    if fail is None:
        print("the recorded case passes")
        return 0
    print("failure: " + fail["msg"])
    if fail.get("detail"):
        print(json.dumps(fail["detail"], indent=1))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
