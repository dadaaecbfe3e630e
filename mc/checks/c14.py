"""C14: the result list of every enumerated run: internal agreement of every record,
chaining of records, one record per committed increment (observed by a spying model),
prefix immutability (a longer run reproduces the records of the shorter ones) and
immutability under later evaluations."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close
from mc.runs import changed, everything, execute, records, same_records, settings
from mc.structures import S, steps

PROPERTY = "C14"
RULE = (
    "one case = structure x step pattern x settings; for each run length 1..n the whole "
    "execution is one trace, its records are transitions; after the longest run every "
    "sequence (length <= 2) of later operations is applied and the list compared again"
)
ASSUMPTIONS = ["an increment is accepted when its state is committed (statev_write)"]
BOUND = {
    "quick": "9 structures x 3 step patterns x 6 settings, run lengths 1..5 per step (2 structures x 3 settings: 11 lengths up to 120; load factors from 1e-4 to 1e7; 2 towers of 12 nodes), later operations {forces, stiffness, other step, mutate other result, overwrite live analysis}^<=2; structure(s) of 40 nodes and 131 bars",
    "thorough": "9 structures x 5 step patterns x 12 settings, run lengths 1..8 (3 structures x 3 settings: 15 lengths up to 1001; 2 towers of 12 nodes); structure(s) of 40 nodes and 131 bars",
}
CHUNK = 3
NAMES = ["bar1", "vm1", "vm2", "tripod", "frame", "nta", "chain", "par", "pframe"]
STEPS = [(1,), (1, -0.7), (1, 0.5, -1), (0.5, 0.5, 0.5), (1, -1)]
SETS = [
    dict(),
    dict(stepcontrol=True, dxtol=1.25, maxfac=4),
    dict(stepcontrol=True, nfev=4, c=6),
    dict(c=6, cycl=3),
    dict(j_pre=False),
    dict(c=1e-3, ftol=3, xtol=1),
    dict(ftol=3, xtol=1),
    dict(j_pre=False, stepcontrol=True, c=3),
    dict(nfev=3, c=3),
    dict(nfev=3, c=4, stepcontrol=True, cycl=8),
    dict(xlimit=(1, 0.06)),
    dict(dxtol=3.0, c=0.5),
]


def cases(tier):
    q = tier == "quick"
    for k in range(6 if q else 12):
        for name in NAMES:
            for sp in STEPS[: 3 if q else 5]:
                yield [name, list(sp), k, 5 if q else 8]
    for k in range(2 if q else 6):
        for name in ("tower", "ptower"):
            for sp in STEPS[:1 if name == "ptower" else 3]:
                yield [name, list(sp), k, 3 if q else 6]
    yield ["mast", [1, -0.7], 0, 2]
    yield ["pmast", [1], 0, 3]
    # large and tiny load factors
    for k in (0, 1):
        for name in ("vm2", "tripod", "par"):
            for f in (1e-3, 1e-7, 1e4):
                yield [name, [f, -0.6 * f] if k else [f], k, 4, f]
    # many increments
    for k in (0, 1, 4):
        for name in ("bar1", "vm2") if q else ("bar1", "vm2", "tripod"):
            for sp in STEPS[:2]:
                yield [name, list(sp), k, LONG if q else LONG + [255, 256, 257, 1001]]


LONG = [9, 10, 11, 20, 33, 50, 51, 99, 100, 101, 120]


def run(case):
    import trusspy as tp

    class Spy(tp.Model):
        "records what the path follower commits"

        def equilibrium(self, Ured, U0red, *a, **kw):
            w = kw.get("statev_write", a[2] if len(a) > 2 else False)
            if w and len(Ured) > self.ndof1:
                self.commits.append((np.array(Ured, float), np.array(U0red, float)))
            return super().equilibrium(Ured, U0red, *a, **kw)

    name, sp, k, n = case[:4]
    o = Outcome()
    st = dict(SETS[k])
    c = st.pop("c", 1)
    before = None
    if isinstance(n, list):
        c *= 0.1
    for incs in n if isinstance(n, list) else range(1, n + 1):
        spec = steps(S(name), sp)
        ns = len(sp)
        d = spec["set"]
        d.update(st)
        d["du"] = d.get("du", 0.02) * c
        d["dlpf"] = d.get("dlpf", 0.02) * c / (case[4] if len(case) > 4 else 1)
        # the first steps keep their length, the last one grows: prefix property
        d["incs"] = tuple([3] * (ns - 1) + [incs]) if ns > 1 else incs
        ref = Ref(spec)
        Spy.commits = []
        M, _ = execute(tp, spec, cls=Spy)
        recs = records(M)
        check(ref, recs, M, spec)
        if Spy.commits and len(Spy.commits) != len(recs) - 1:
            raise Violation("number of stored results differs from the accepted increments", got=len(recs) - 1, want=len(Spy.commits), incs=incs)
        for i, (V, V0) in enumerate(Spy.commits):
            if not close(V, recs[i + 1]["Vred"], 0):
                raise Violation("stored result is not the accepted increment", result=i + 1, got=recs[i + 1]["Vred"], want=V)
        if before is not None:
            m = len(before)
            if len(recs) < m:
                raise Violation("a longer run stores fewer results", got=len(recs), want=m)
            same_records(before, recs[:m], 0, what="results of the shorter run changed in the longer run", incs=incs)
            for i in range(len(full)):
                k_ = changed(full[i], everything(M.Results.R[i]))
                if k_ is not None:
                    raise Violation("results of the shorter run changed in the longer run", result=i, field=k_, incs=incs)
        before = recs
        full = [everything(R) for R in M.Results.R] if not isinstance(n, list) else []
        o.step(len(recs))
        o.trace()
    for r in recs:
        o.state(name, k, rnd(r["U"], 8), round(r["lpf"], 9), r["step"])
    # later operations
    V = recs[-1]["Vred"]
    if V is not None:
        later(M, recs, o)
    o.outcomes.add((name, k, len(recs)))
    o.sample = dict(case=case, results=len(recs))
    return o


def later(M, recs, o):
    n = M.ndof1

    def f1():
        M.equilibrium(0.3 * np.ones(n + 1), np.zeros(n + 1))

    def f2():
        M.stiffness(-0.2 * np.ones(n))

    def f3():
        M.equilibrium(0.1 * np.ones(n + 1), np.zeros(n + 1), statev_write=True)

    def f4():
        A = M.Analysis
        for a in ("U", "r", "stretch", "element_stress", "element_force"):
            getattr(A, a)[...] = 7.5
        A.ExtForces.forces_const = A.ExtForces.forces_const + 1.0
        A.Ured = A.Ured + 1.0

    ops = [f1, f2, f3, f4]
    full = [everything(R) for R in M.Results.R]
    for seq in itertools.chain(itertools.product(ops, repeat=1), itertools.product(ops, repeat=2)):
        for f in seq:
            f()
        same_records(recs, records(M), 0, what="stored results changed by later evaluations", ops=[f.__name__ for f in seq])
        for i, R in enumerate(M.Results.R):
            k = changed(full[i], everything(R))
            if k is not None:
                raise Violation("stored result changed by later evaluations", result=i, field=k, ops=[f.__name__ for f in seq])
        o.step()
    # results are independent of each other: overwriting one leaves the others alone
    R = M.Results.R
    for i in sorted({0, 1, len(R) // 2, len(R) - 1}):
        keep = {a: getattr(R[i], a).copy() for a in ("U", "U0", "r", "stretch", "element_force", "element_stress")}
        for a in keep:
            getattr(R[i], a)[...] = -3.25
        now = records(M)
        for j in range(len(R)):
            if j != i:
                same_records([recs[j]], [now[j]], 0, what="results share storage", first=i, second=j)
        for a in keep:
            getattr(R[i], a)[...] = keep[a]
        o.step()


def check(ref, recs, M, spec):
    z = recs[0]
    if z["lpf"] != 0 or np.any(z["U"]) or np.any(z["r"]) or np.any(z["element_force"]) or np.any(z["fc"]):
        raise Violation("first result is not the undeformed, unloaded model")
    if len(recs) != len(M.Results.R):
        raise Violation("result list")
    for i, R in enumerate(recs):
        full = R["U"].ravel()
        if np.any(full[ref.DOF0]):
            raise Violation("locked component in a result", result=i)
        if i == 0:
            if not close(R["Ured"], np.zeros(len(ref.DOF1)), 0):
                raise Violation("reduced vector of the first result")
            continue
        if not close(R["Ured"], full[ref.DOF1], 0):
            raise Violation("reduced and full displacement vector differ", result=i, got=R["Ured"], want=full[ref.DOF1])
        if R["Vred"] is None or not close(R["Vred"], np.append(R["Ured"], R["lpf"]), 0):
            raise Violation("extended vector differs from displacements and load factor", result=i, got=R["Vred"], want=np.append(R["Ured"], R["lpf"]))
        if not close(R["U0"], recs[i - 1]["U"], 0):
            raise Violation("displacement at the begin is not the one of the previous end", result=i, got=R["U0"], want=recs[i - 1]["U"])
        # the derived fields belong to these displacements
        ev = ref.eval(R["U"])
        if not close(np.ravel(R["stretch"]), ev["stretch"], 1e-10):
            raise Violation("stretches belong to other displacements", result=i, got=R["stretch"], want=ev["stretch"])
