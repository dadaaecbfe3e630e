"""C22: runs of all enumerated models and settings at every log level, with and without a
log file, and all well-nested schedules of up to three models (logged or not, failing or
not); every stream is compared with the texts the same operations print without a log
file."""
import functools
import io
import itertools
import json
import os
import shutil
import sys
import tempfile

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import define
from mc.runs import records, same_records
from mc.structures import S, relabel, steps

PROPERTY = "C22"
RULE = (
    "part log: one case = model x settings; transitions are its runs at the log levels 0, 1, 2, 3 and 10 "
    "with and without file. part nest: one case = well-nested schedule of create/build/run "
    "of up to 3 models x which are logged x levels x which run fails; a transition is one "
    "operation, a state (schedule position, current output stream)"
)
ASSUMPTIONS = [
    "time measurements, blank lines and markdown fences (```) are not compared",
    "models are logged one after the other or nested (a model created while another one "
    "is logged is run before that one)",
]
BOUND = {
    "quick": "log: 9 models x 12 settings x 5 levels x with/without file; nest: all well-nested schedules of <= 2 models x logged x 3 levels x failing runs; of 3 models x logged x failing run at level 1",
    "thorough": "log: the same with 24 settings; nest: all well-nested schedules of <= 3 models x logged x levels x failing runs",
}
CHUNK = 8

MODELS = {
    "bar1": lambda: S("bar1", incs=4),
    "vm1": lambda: S("vm1", incs=12),
    "vm2": lambda: S("vm2", incs=6),
    "tripod": lambda: S("tripod", incs=5),
    "chain": lambda: S("chain", incs=8),
    "par2": lambda: steps(S("par", incs=3), [1.0, -0.5]),
    "two": lambda: steps(S("tripod", incs=[2, 3]), [1.0, {4: [0.0, 0.3, 0.2]}]),
    "lab": lambda: relabel(S("frame", incs=3), {1: 9, 5: 1, 2: 77}, {3: 50}),
    "three": lambda: steps(S("vm2", incs=2), [1.0, -0.3, 0.5]),
}
SETS = [
    {},
    dict(stepcontrol=True),
    dict(stepcontrol=True, dxtol=1.2345678, increase=0.98765432, reduce=7.1234567, maxfac=3.1415926, du=0.0512345678),
    dict(j_pre=False),
    dict(j0=0, j_fixed=True),
    dict(j0=0),
    dict(nfev=2, cycl=1),
    dict(nfev=2, cycl=2, stepcontrol=True, minfac=0.2),
    dict(xlimit=[-1, 0.05]),
    dict(dxtol=10.0),
    dict(nfev=3, stepcontrol=True, reduce=3.1415926, dlpf=0.0456789123),
    dict(nsteps=4),
    dict(j0=-1),
    dict(j0=-1, j_fixed=True),
    dict(cycl=1),
    dict(cycl=0),
    dict(stepcontrol=True, reduce=2, maxfac=2, increase=2.0),
    dict(nfev=2, cycl=8, stepcontrol=True),
    dict(ftol=3, xtol=3),
    dict(ftol=12, xtol=12),
    dict(xlimit=[0, 1e-9]),
    dict(incs=0),
    dict(incs=1),
    dict(du=0.001, dlpf=10.0),
]
LEVELS = (0, 1, 2)


def clean(text):
    out = []
    for l in text.splitlines():
        l = l.rstrip()
        if not l or l.startswith("```") or "seconds" in l:
            continue
        out.append(l)
    return out


class Cap(io.StringIO):
    pass


def cases(tier):
    q = tier == "quick"
    for m in MODELS:
        for k in range(12 if q else len(SETS)):
            yield ["log", m, k]
    for n in (1, 2, 3):
        for sched in schedules(n):
            for logged in itertools.product([0, 1], repeat=n):
                for lev in itertools.product(LEVELS, repeat=n) if n < 3 or not q else [(1,) * 3]:
                    fails = [None] + list(range(n))
                    if n == 3 and not q and len(set(lev)) == 2:
                        continue
                    for f in fails:
                        yield ["nest", sched, list(logged), list(lev), f]


def schedules(n):
    "all interleavings of create/build/run of n models in which lifetimes are nested"

    def rec(started, stack, done, at):
        if done == n:
            yield []
            return
        if started < n:
            for r in rec(started + 1, stack + [started], done, at + (1,)):
                yield [[started, 0]] + r
        if stack:
            i = stack[-1]
            a = at[i]
            nat = at[:i] + (a + 1,) + at[i + 1 :]
            if a == 2:
                for r in rec(started, stack[:-1], done + 1, nat):
                    yield [[i, 2]] + r
            else:
                for r in rec(started, stack, done, nat):
                    yield [[i, a]] + r

    return list(rec(0, [], 0, ()))


def ops(tp, spec, log, logfile, name=None):
    "generator: performs create, build, run one after the other; yields the model"
    kw = dict(log=log, logfile=logfile)
    if name is not None:
        kw["logfile_name"] = name
    M = tp.Model(**kw)
    define(tp, spec, M)
    yield M
    M.build()
    yield M
    try:
        M.run()
        yield M
    except (ValueError, IndexError) as e:
        e.__traceback__ = None
        M.failed = type(e).__name__
        yield M


@functools.lru_cache(maxsize=4096)
def plain(key, log):
    "texts printed by create, build, run without a log file; results; failure"
    import trusspy as tp

    spec = json.loads(key)
    g = None
    out = []
    old = sys.stdout
    M = None
    try:
        for k in range(3):
            sys.stdout = cap = Cap()
            if g is None:
                g = ops(tp, spec, log, False)
            M = next(g)
            if sys.stdout is not cap:
                raise Violation("a model without a log file changes the output stream", operation=k)
            out.append(cap.getvalue())
    finally:
        sys.stdout = old
    failed = getattr(M, "failed", None)
    return out, (None if failed else records(M)), failed


def run(case):
    cwd = os.getcwd()
    top = tempfile.mkdtemp(prefix="mc_log_")
    old = sys.stdout
    try:
        os.chdir(top)
        o = Outcome()
        globals()["run_" + case[0]](case, o, top)
        o.sample = dict(case=case)
        o.trace()
        return o
    finally:
        sys.stdout = old
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run_log(case, o, top):
    import trusspy as tp

    _, name, k = case
    spec = MODELS[name]()
    spec["set"].update(SETS[k])
    key = json.dumps(spec)
    base = None
    for log in (*LEVELS, 3, 10):
        texts, recs, failed = plain(key, log)
        if base is None:
            base = recs, failed
            complete = not failed and is_complete(spec, recs)
            if complete and clean("".join(texts)):
                raise Violation("something is printed at log level 0", text="".join(texts)[:400])
        if failed != base[1]:
            raise Violation("whether the run fails depends on the log level", level=log)
        if recs is not None:
            same_records(base[0], recs, 0.0, what="results depend on the log level", level=log)
        fname = {0: "analysis", 1: "my.log"}.get(log, "sub/x")
        os.makedirs("sub", exist_ok=True)
        if (k + log) % 2:
            # the log of an earlier run
            with open(fname + ".md", "w") as f:
                f.write("# earlier\n" * (5000 if k % 4 > 1 else 1))
        sys.stdout = cap = Cap()
        for M in ops(tp, spec, log, True, None if log == 0 else fname):
            pass
        if sys.stdout is not cap:
            raise Violation("the output stream is not given back after the run", level=log)
        if getattr(M, "failed", None) != failed:
            raise Violation("whether the run fails depends on the log file", level=log)
        if recs is not None:
            same_records(base[0], records(M), 0.0, what="results depend on the log file", level=log)
        if cap.getvalue():
            raise Violation("a logged model prints to the output stream", text=cap.getvalue()[:300], level=log)
        got = clean(open(fname + ".md").read())
        want = clean("".join(texts))
        if got != want:
            d = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("the log file is not what the model logs", line=d, got=got[d : d + 2], want=want[d : d + 2], lengths=[len(got), len(want)], level=log)
        o.step(2)
        o.state(name, k, log, len(got))
        o.outcomes.add((log, bool(got), bool(failed)))


def is_complete(spec, recs):
    "every step has all its increments and none stopped at its value limit: no exits"
    from mc.ref import Ref

    st = spec["set"]
    j, lim = st.get("xlimit", [0, float("inf")])
    ref = Ref(spec)
    for s in range(1, st.get("nsteps", 1) + 1):
        incs = st.get("incs", 50)
        incs = incs[s - 1] if isinstance(incs, list) else incs
        mine = [r for r in recs[1:] if r["step"] == s]
        if len(mine) != incs:
            return False
        if mine and abs(np.append(mine[-1]["U"].ravel()[ref.DOF1], mine[-1]["lpf"])[j]) > lim:
            return False
    return True


NSPEC = [("bar1", 1), ("vm1", 0), ("par2", 0)]


def run_nest(case, o, top):
    import trusspy as tp

    _, sched, logged, lev, fail = case
    n = len(logged)
    specs = []
    for i in range(n):
        name, k = NSPEC[i]
        s = MODELS[name]()
        s["set"]["incs"] = 3
        s["set"].update(SETS[k])
        if fail == i:
            # the second step has no load: the run fails after the first one
            s["set"]["nsteps"] = s["set"].get("nsteps", 1) + 1
        specs.append(s)
    ref = [plain(json.dumps(s), l) for s, l in zip(specs, lev)]
    for i in range(n):
        if (fail == i) != bool(ref[i][2]):
            raise RuntimeError("the failing run of the check does not fail")
    orig = Cap()
    sys.stdout = orig
    stack = ["orig"]
    want = {"orig": []}
    before = [None] * n
    gens = [None] * n
    for i, op in sched:
        if op == 0:
            before[i] = sys.stdout
            gens[i] = ops(tp, specs[i], lev[i], bool(logged[i]), "m%d" % i)
            if logged[i]:
                stack.append("m%d" % i)
                want["m%d" % i] = []
        M = next(gens[i])
        want[stack[-1]] += clean(ref[i][0][op])
        if op == 2:
            if sys.stdout is not before[i]:
                raise Violation("after the run the output stream is not the one in place before the model was created", model=i, schedule=sched)
            if logged[i]:
                stack.pop()
                got = clean(open("m%d.md" % i).read())
                if got != want["m%d" % i]:
                    raise Violation("the log file is not complete after the run", model=i, schedule=sched, got=got[-3:], want=want["m%d" % i][-3:])
            if ref[i][1] is not None:
                same_records(ref[i][1], records(M), 0.0, what="results depend on logging", model=i)
            elif getattr(M, "failed", None) != ref[i][2]:
                raise Violation("the run does not fail like without log file", model=i)
        o.step()
        o.state(sched, i, op, tuple(logged), len(stack))
    if sys.stdout is not orig:
        raise Violation("the output stream is not given back")
    if clean(orig.getvalue()) != want["orig"]:
        raise Violation("the output stream does not hold what the unlogged models print", schedule=sched)
    for i in range(n):
        if logged[i]:
            got = clean(open("m%d.md" % i).read())
            if got != want["m%d" % i]:
                raise Violation("a log file is not what was logged", model=i, schedule=sched, got=got[-3:], want=want["m%d" % i][-3:])
    o.outcomes.add(("nest", n, sum(logged), fail is None))
