"""C28: a run (or build) is interrupted at every point of the bound; afterwards the model
and the process are as if it had not been started."""
import contextlib
import copy
import functools
import io
import json
import os
import shutil
import sys
import tempfile

import numpy as np

from mc.core import REPO, Outcome, Violation, h64
from mc.ref import define
from mc.runs import execute, records, same_records
from mc.structures import S, relabel, steps

PROPERTY = "C28"
RULE = (
    "one case = model x settings x kind of interruption x block of interruption points; a "
    "transition is one interrupted run: part call interrupts at the k-th evaluation of "
    "forces or stiffness (before and after it, exception or keyboard interrupt, with and "
    "without log file), part line at the k-th executed line of the library; a state is "
    "(model, settings, interruption point). After each of them the definition is compared, "
    "and the model and a second one are built and run and compared with a fresh process "
    "state"
)
ASSUMPTIONS = [
    "part line: an interruption which the library swallows itself (a bare except around "
    "the interpretation of an argument) counts as an interruption all the same",
    "interruptions between two lines inside the clean-up itself are not considered for the "
    "output stream",
]
BOUND = {
    "quick": "call: every evaluation of the runs of 6 models x 3 settings x {before, after} x {exception, keyboard interrupt} x {log file, none} (products along the points); line: every executed library line of the run of 3 models of 1-3 increments",
    "thorough": "call: the same with 10 models x 6 settings, all products at every point; line: every executed library line of the runs of 6 models of 2-4 increments and of their builds' callees",
}
CHUNK = 1
CPU_LIMIT = dict(quick=250.0, thorough=600.0)

MODELS = {
    "bar1": lambda: S("bar1", incs=3),
    "vm1": lambda: S("vm1", incs=5),
    "par2": lambda: steps(S("par", incs=[3, 2], dlpf=0.1), [1.0, -1.0]),
    "tri2": lambda: steps(S("tripod", incs=2), [1.0, {4: [0.1, 0.05, 0.1]}]),
    "lab": lambda: relabel(S("vm2", incs=3), {1: 9, 3: 77}, {1: 50}),
    # everything given per step, the last step fails
    "per": lambda: steps(S("vm2", incs=[2, 1, 2], xlimit=[[0, 9.0], [-1, 5.0], [0, 9.0]]), [1.0, -0.3, 0.5]),
    "chain": lambda: S("chain", incs=3, dlpf=0.1),
    "frame": lambda: S("frame", incs=2),
    "pframe": lambda: S("pframe", incs=3, dlpf=0.1),
    "nta": lambda: S("nta", incs=2),
}
SETS = [
    {},
    dict(stepcontrol=True, dxtol=1.25),
    dict(nfev=3, cycl=3, stepcontrol=True, j_pre=False),
    dict(j0=-1, j_fixed=True),
    dict(xlimit=[-1, 0.03]),
    dict(nfev=2, cycl=1),
]
PART = 8


def cases(tier):
    q = tier == "quick"
    names = list(MODELS)[: 6 if q else 10]
    for name in names:
        for k in range(3 if q else 6):
            for b in range(PART if not q else 2):
                yield ["call", name, k, b, PART if not q else 2, q]
    for name, incs in [("bar1", 2), ("vm1", 1), ("per", [1, 1, 1])] if q else [("bar1", 3), ("vm1", 2), ("lab", 2), ("par2", 1), ("chain", 2), ("per", [1, 2, 1])]:
        nb = 32 if q else 64
        for b in range(nb):
            yield ["line", name, incs, b, nb]


class Stop(Exception):
    pass


def definition(M):
    "everything the user defined, in canonical form"
    d = dict(
        nodes=sorted((int(l), tuple(map(float, c))) for l, c in zip(M.Nodes.labels, M.Nodes.coords)),
        elems=sorted(
            (int(l), tuple(map(int, c)), int(t), tuple(map(float, p)), tuple(map(float, g)))
            for l, c, t, p, g in zip(M.Elements.labels, M.Elements.conns, M.Elements.mat_type, M.Elements.material_properties, M.Elements.geometric_properties)
        ),
        bounds=sorted((int(l), tuple(map(int, v))) for l, v in zip(M.Boundaries.Unodes, M.Boundaries.Uvalues) if tuple(v) != (1, 1, 1)),
        forces=sorted((int(l), tuple(map(float, v))) for l, v in zip(M.ExtForces.nodes, M.ExtForces.forces) if any(v)),
    )
    for k, v in vars(M.Settings).items():
        if k != "nstatev":
            d["set." + k] = repr(v)
    return d


@functools.lru_cache(None)
def fresh(key):
    import trusspy as tp

    spec = json.loads(key)
    M = define(tp, spec, tp.Model(log=0))
    d = definition(M)
    M, _ = execute(tp, spec)
    return d, records(M)


def counted(tp, at, after, exc):
    class C(tp.Model):
        n = 0

        def _hit(self, when):
            if when != after:
                return
            C.n += 1
            if C.n - 1 == at:
                raise exc("interrupted")

        def equilibrium(self, *a, **kw):
            self._hit(0)
            r = super().equilibrium(*a, **kw)
            self._hit(1)
            return r

        def stiffness(self, *a, **kw):
            self._hit(0)
            r = super().stiffness(*a, **kw)
            self._hit(1)
            return r

    return C


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def after_check(tp, M, key, what, other=False):
    d, want = fresh(key)
    got = definition(M)
    for k in d:
        if got[k] != d[k]:
            raise Violation("an interrupted run changes the definition: %s" % k, got=got[k], want=d[k], **what)
    if other:
        B, _ = execute(tp, json.loads(key))
        same_records(want, records(B), 1e-9, what="an interrupted run changes the results of another model", **what)
    with quiet():
        M.build()
        M.run()
    same_records(want, records(M), 1e-9, what="build and run after an interrupted run differ from a fresh model", **what)
    got = definition(M)
    for k in d:
        if got[k] != d[k]:
            raise Violation("the definition is changed after an interrupted run: %s" % k, got=got[k], want=d[k], **what)


def run(case):
    cwd, old = os.getcwd(), sys.stdout
    top = tempfile.mkdtemp(prefix="mc_int_")
    try:
        os.chdir(top)
        o = Outcome()
        globals()["run_" + case[0]](case, o)
        o.trace()
        o.sample = dict(case=case)
        return o
    finally:
        sys.settrace(None)
        sys.stdout = old
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run_call(case, o):
    import trusspy as tp

    _, name, k, b, nb, q = case
    spec = MODELS[name]()
    spec["set"].update(SETS[k])
    key = json.dumps(spec)
    fresh(key)
    C = counted(tp, None, 0, Stop)
    M = C(log=0)
    with quiet():
        define(tp, spec, M)
        M.build()
        M.run()
    total = C.n
    full = None
    for at in range(b, total, nb):
        combos = [(a, e, l) for a in (0, 1) for e in (0, 1) for l in (0, 1)]
        if q:
            # two of the eight combinations per point, all of them in turn
            i = (at // nb) % 4
            combos = [combos[i], combos[7 - i]]
        for after, ex, logged in combos:
            exc = (Stop, KeyboardInterrupt)[ex]
            what = dict(model=name, settings=SETS[k], evaluation=at, after=after, logged=logged)
            C = counted(tp, at, after, exc)
            sys.stdout = mine = io.StringIO()
            M = C(log=1, logfile=bool(logged), logfile_name="run")
            define(tp, spec, M)
            M.build()
            hit = False
            try:
                M.run()
            except exc:
                hit = True
            now, sys.stdout = sys.stdout, None
            if now is not mine:
                raise Violation("the output stream is not given back after an interrupted run", **what)
            if not hit:
                raise Violation("an interruption does not reach the caller", **what)
            sys.stdout = mine
            if logged:
                if mine.getvalue():
                    raise Violation("a logged model prints to the output stream", **what)
                if full is None:
                    full = plainlog(tp, spec)
                text = open("run.md").read()
                if not full.startswith(text):
                    raise Violation("the log of an interrupted run is not the begin of the log of the whole run", got=text[-200:], **what)
                M.logfile = False
            C.n = total + 1000
            M.Settings.log = 0
            after_check2(tp, M, key, what, other=(at % 5 == 0))
            o.step()
            o.state(name, k, at, after, ex, logged)
    o.outcomes.add((name, k, total))


def after_check2(tp, M, key, what, other):
    # the log level was chosen by the check, not by the definition
    d, _ = fresh(key)
    lv = d["set.log"]
    M.Settings.log = int(lv)
    after_check(tp, M, key, what, other)


def plainlog(tp, spec):
    old = sys.stdout
    try:
        sys.stdout = io.StringIO()
        M = tp.Model(log=1, logfile=True, logfile_name="full")
        define(tp, spec, M)
        M.build()
        M.run()
    finally:
        sys.stdout = old
    return open("full.md").read()


class Tracer:
    "raises at the k-th executed line of the library"

    def __init__(self, at):
        self.at, self.n = at, 0
        self.src = os.path.join(REPO, "src") + os.sep

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.src):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n - 1 == self.at:
                sys.settrace(None)
                raise Stop("interrupted")
        return self.local


def traced(tp, spec, at):
    "(model, number of executed lines, interrupted)"
    M = tp.Model(log=0)
    define(tp, spec, M)
    with quiet():
        M.build()
        t = Tracer(at)
        hit = False
        sys.settrace(t)
        try:
            M.run()
        except Stop:
            hit = True
        except Exception as e:
            # a swallowed interruption may lead to another failure
            if not isinstance(e.__context__, Stop):
                raise
            hit = True
        finally:
            sys.settrace(None)
    return M, t.n, hit


@functools.lru_cache(None)
def line_total(key):
    import trusspy as tp

    return traced(tp, json.loads(key), None)[1]


def run_line(case, o):
    import trusspy as tp

    _, name, incs, b, nb = case
    spec = MODELS[name]()
    spec["set"]["incs"] = incs
    key = json.dumps(spec)
    fresh(key)
    total = line_total(key)
    for at in range(b, total, nb):
        M, n, hit = traced(tp, spec, at)
        what = dict(model=name, line=at)
        o.outcomes.add(hit)
        after_check(tp, M, key, what, other=(at % 5 == 0))
        o.step()
        o.state(name, str(incs), "line", at)
    o.outcomes.add((name, str(incs), total))
