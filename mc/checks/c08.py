"""C08: increment limits of every stored increment, in every scripted environment of the
bound and on real structures over a settings grid, incl. locked control components."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.envruns import SETS, make_env, run_env, scripts, scripts2
from mc.runs import execute, records, settings
from mc.structures import S, relabel, steps

PROPERTY = "C08"
RULE = (
    "one case = a scripted response (see C09) or a real structure with a settings set; "
    "each complete run is a trace, each stored increment a transition on which the limit "
    "rule is evaluated; states are (case, settings, increment)"
)
ASSUMPTIONS = [
    "the current limit of an increment is the recorded dVmax; without step control it "
    "must equal the values set by the user",
]
BOUND = {
    "quick": "all 1-component scripts of 3 cells (512) x 11 settings incl. 5 with locked component; all 2-component scripts of 2 cells (324) x 5 settings; 7 real structures x 12 settings x 2 step patterns; towers of 24 free components incl. 9 locked ones; path follower called directly with one limit per component; structure(s) of 40 nodes and 131 bars",
    "thorough": "4 cells x 3 radii (20736) x 16 settings; 3 cells 2 components (5832) x 8; 9 structures x 24 settings x 3 patterns; towers of 24 free components; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 8
Q1 = [0, 1, 3, 6, 9, 11, 12, 13, 14, 18, 20]
Q2 = [0, 3, 7, 11, 14]
T1 = [0, 1, 2, 3, 5, 7, 10, 11, 12, 13, 14, 18, 20, 21, 22, 23]
T2 = [0, 1, 3, 7, 10, 12, 13, 14]


def cases(tier):
    q = tier == "quick"
    for name in ["vm1", "vm2", "tripod", "frame", "par", "pframe", "chain"] + ([] if q else ["bar1", "nta"]):
        for sp in [(1,), (1, -0.7)] + ([] if q else [(0.5, 0.8, -1)]):
            for sc, dxtol, c, fx in itertools.product(
                [False, True], [1.000001, 1.25], [1, 3] if q else [0.5, 1, 3, 6], [0, 1, -1]
            ):
                if q and fx and c == 3:
                    continue
                yield ["real", name, list(sp), dict(stepcontrol=sc, dxtol=dxtol, c=c, fx=fx)]
    for j in [3, 9, 10, 11, 12, 19, 20, 24, 25]:
        yield ["real", "tower", [1], dict(stepcontrol=j % 2 == 0, dxtol=1.25, c=1, fx=1 - 2 * (j % 3 == 0), only=j)]
    # limits of displacements and load factor far apart
    for name in ("vm1", "vm2", "tripod", "par"):
        for cl in (0.01, 0.1, 10, 1000) if q else (1e-3, 0.01, 0.1, 10, 50, 1000, 1e5):
            for sc, fx in itertools.product([False, True], [0, 1]):
                yield ["real", name, [1], dict(stepcontrol=sc, dxtol=1.25, c=1, fx=fx, cl=cl)]
    # the components which govern first come first, last and in between
    for turn in range(0, 12, 4 if q else 2):
        for dxtol in (1.000001, 1.25, 2.0):
            for sc in (False, True):
                yield ["real", "tower", [1, -0.7], dict(stepcontrol=sc, dxtol=dxtol, c=2, fx=0, turn=turn)]
    for name in ("mast", "pmast"):
        for sc in (False, True):
            yield ["real", name, [1], dict(stepcontrol=sc, dxtol=1.25, c=2, fx=0)]
    for j in (1, 33, 64, 108, 109):
        yield ["real", "mast", [1], dict(stepcontrol=False, dxtol=1.25, c=1, fx=1, only=j)]
    for name in ("tower", "ptower"):
        for sc in (False, True):
            yield ["real", name, [1, -0.7], dict(stepcontrol=sc, dxtol=1.25, c=1, fx=0)]
    for name in ("vm2", "tripod", "frame", "tower"):
        for k in range(6):
            yield ["direct", name, k]
    if q:
        for sl, ra in scripts(3):
            yield ["env", sl, ra, Q1, 8]
        for sl, ra in scripts2(2):
            yield ["env", sl, ra, Q2, 8]
    else:
        for sl, ra in scripts(4, radii=[0, 1, 2]):
            yield ["env", sl, ra, T1, 10]
        for sl, ra in scripts2(3):
            yield ["env", sl, ra, T2, 10]


def limits(recs, S, n, o, **tag):
    base = np.append(np.full(n, float(S["du"])), float(S["dlpf"]))
    prev, pstep = np.zeros(n + 1), 0
    for i, r in enumerate(recs[1:], 1):
        new = r["step"] != pstep
        if new:
            prev = np.append(prev[:n], 0.0)
            pstep = r["step"]
        V = r["Vred"]
        dx = V - prev
        dxm = r["dVmax"]
        if dxm is None or dxm.shape != base.shape:
            raise Violation("no incremental limits recorded", increment=i, **tag)
        if not S["stepcontrol"] and not np.all(np.abs(dxm - base) <= 1e-12 * base):
            raise Violation("limits changed although step control is off", increment=i, got=dxm, want=base, **tag)
        if new and np.any(dxm > base * (1 + 1e-9)):
            raise Violation("a load step does not start with the limits of the user", increment=i, got=dxm, want=base, **tag)
        if np.ptp(dxm / base) > 1e-9 * np.max(dxm / base):
            raise Violation("limits do not keep the proportions set by the user", increment=i, got=dxm, want=base, **tag)
        q = np.abs(dx) / dxm
        eps = 1e-7 + 4e-8 / np.min(dxm)  # solver tolerance
        if not S["j_fixed"]:
            if np.max(q) > S["dxtol"] * (1 + 1e-9) + 1e-12:
                raise Violation("increment exceeds its limit", increment=i, ratio=q, dxtol=S["dxtol"], **tag)
            if np.max(q) < 1 - eps:
                raise Violation("no component reaches its limit", increment=i, ratio=q, **tag)
        else:
            j = S["j0"]
            d = dx[abs(j) - 1] * np.sign(j) / dxm[abs(j) - 1]
            if abs(d - 1.0) > eps:
                raise Violation("locked component does not change by its limit", increment=i, ratio=d, locked=j, **tag)
        prev = V
        o.step()


def run(case):
    import trusspy as tp

    o = Outcome()
    if case[0] == "real":
        _, name, sp, st = case
        st = dict(st)
        cl = st.pop("cl", 1)
        c, fx, only = st.pop("c"), st.pop("fx"), st.pop("only", None)
        turn = st.pop("turn", None)
        spec = steps(S(name), sp)
        if turn is not None:
            spec = relabel(spec, {l: (12 - l + turn) % 12 + 1 for l in range(1, 13)})
        d = spec["set"]
        d.update(st)
        d["du"] = d.get("du", 0.02) * c
        d["dlpf"] = d.get("dlpf", 0.02) * c * cl
        d["incs"] = 8
        from mc.ref import Ref

        n = len(Ref(spec).DOF1)
        todo = [None]
        if fx:
            todo = [fx * (k + 1) for k in range(n + 1)] if only is None else [fx * only]
        for j in todo:
            if j is not None:
                d.update(j_fixed=True, j0=j)
            try:
                M, _ = execute(tp, spec)
            except ValueError:
                # a locked component can make the system singular: not a limit question
                if j is None:
                    raise
                o.outcomes.add("singular")
                continue
            recs = records(M)
            limits(recs, settings(spec), n, o, j=j)
            o.trace()
            o.state(case[1:], j, len(recs))
            o.outcomes.add((name, j, len(recs)))
    elif case[0] == "direct":
        direct(tp, case[1], case[2], o)
    else:
        _, sl, ra, sets, incs = case
        for k in sets:
            env, f0 = make_env(sl, ra)
            st = dict(dict(du=0.06, dlpf=0.05), **SETS[k], incs=incs)
            try:
                M, recs, S_ = run_env(tp, env, [f0], **st)
            except ValueError:
                o.outcomes.add("singular")
                continue
            limits(recs, S_, env.n, o, settings=SETS[k])
            o.trace()
            for i, r in enumerate(recs):
                o.state(k, sl, ra, rnd(r["U"][1], 9), round(r["lpf"], 9))
            o.outcomes.add((k, len(recs)))
    o.sample = dict(case=case)
    return o


def direct(tp, name, k, o):
    "documented input forms of dxmax: scalar, [u, lpf], one limit per component"
    from mc.ref import define, prime
    from trusspy.solvers import pathfollow

    spec = S(name)
    M = prime(define(tp, spec))
    A = M.Analysis
    n = M.ndof1
    import copy

    A.ExtForces = copy.deepcopy(M.ExtForces)
    A.ExtForces.forces_const = np.zeros_like(M.ExtForces.forces)
    A.f0red = np.array(M.ExtForces.forces).ravel()[A.DOF1].reshape(-1, 1)
    A.lpf = 0.0
    lim = np.append(0.03 + 0.01 * np.arange(n), 0.02)
    form = [0.03, [0.04, 0.01], lim.tolist(), lim, [0.04, 0.01], lim.tolist()][k]
    want = [np.full(n + 1, 0.03), np.append(np.full(n, 0.04), 0.01), lim, lim, np.append(np.full(n, 0.04), 0.01), lim][k]
    sc = k >= 4
    keep = copy.deepcopy(form)
    x, a = pathfollow(
        M.equilibrium, M.stiffness, np.zeros(n), A, dxmax=form, incs=7, stepcontrol=sc, maxfac=3, dxtol=1.25
    )
    if not np.array_equal(np.asarray(form), np.asarray(keep)):
        raise Violation("limits passed by the caller are changed", got=form, want=keep)
    if len(x) < 4:
        raise Violation("direct path following stores nothing", stored=len(x))
    for i in range(1, len(x)):
        dxm = np.asarray(a[i].dVmax, float)
        q = dxm / want
        if q.shape != (n + 1,) or np.ptp(q) > 1e-9 * q[0] or (not sc and abs(q[0] - 1) > 1e-12):
            raise Violation("limits do not keep the proportions given", got=dxm, want=want)
        r = np.abs(x[i] - x[i - 1]) / dxm
        if r.max() > 1.25 * (1 + 1e-9) or r.max() < 1 - 1e-5:
            raise Violation("increment does not respect its limits", increment=i, ratio=r)
        o.step()
    o.trace()
    o.state("direct", name, k)
