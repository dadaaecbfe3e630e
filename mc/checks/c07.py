"""C07: material history.

part "ops": explicit-state search over operation sequences on the real model (force
evaluation, stiffness evaluation and commit at several displacement states, in every
order up to the depth); after every operation the live material state must be the state
of the reference automaton, which only moves on commits.

part "run": complete runs that yield, with Newton failures, recycles, step cuts and
several load steps; the state of every stored increment must be the material update of
the state of the stored increment before."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close, define, prime
from mc.runs import execute, records
from mc.structures import S, permute, relabel, steps

PROPERTY = "C07"
RULE = (
    "ops: state = (material state of all elements, displacement state committed last), "
    "transition = one operation of the real model; run: transition = one stored "
    "increment compared with the reference chain"
)
ASSUMPTIONS = [
    "reference update: radial return with isotropic hardening (closed form, linear)",
    "the state of an element that never yielded may be recorded with yield stress 0 or "
    "its initial value",
]
BOUND = {
    "quick": "ops: 3 structures x all sequences of 4 operations out of 9 (3 displacement states x forces/stiffness/commit); run: 4 structures x 8 step patterns (one with a step without load) x 12 settings, 3 structures x 2 patterns x 12 settings with far too wide limits (up to 100 recycles), a tower (12 nodes, 26 bars) x 3 x 2; structure(s) of 40 nodes and 131 bars",
    "thorough": "ops: all sequences of length 5; run: 4 structures x 15 step patterns x 24 settings, 3 structures x 7 patterns x 36 settings with far too wide limits (up to 100 recycles), a tower (12 nodes, 26 bars) x 15 x 4; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 4
PATS = [
    (1,), (1, -1), (1, -2.2, 2.2), (1, -1, 1), (-1, 1.7), (0.6, 0.6, -1.5), (-1, -0.5),
    (1, 0, 0.8), (1, -1, 1, -1), (1, -2, 2, -2), (-2, 3), (1, 0.3, 0.3), (2, -1), (-0.4, -0.4, 2), (1, -0.2, 0.5, -1),
]
AX = [
    dict(stepcontrol=[False, True]),
    dict(c=[1, 3]),
    dict(nfev=[8, 4, 3]),
    dict(j_pre=[True, False]),
]


def op_structs():
    a = S("chain")
    b = S("par")
    c = relabel(permute(S("pframe"), pe=[3, 0, 4, 1, 2]), {1: 9, 2: 4, 3: 30, 4: 2}, {1: 7, 2: 3, 3: 12, 4: 5, 5: 1})
    return dict(chain=a, par=b, pframe=c)


def cases(tier):
    q = tier == "quick"
    depth = 4 if q else 5
    yield from tower_cases(q)
    yield from deep_cases(q)
    for name in ("chain", "par", "pframe"):
        for first in itertools.product(range(9), repeat=2):
            yield ["ops", name, list(first), depth]
    for name in ("chain", "par", "pframe", "pframe2"):
        for sp in PATS[: 8 if q else 15]:
            for sc, c, nfev, pre in itertools.product([False, True], [1, 3], [8, 4, 3] if q else [8, 5, 4, 3], [True, False] if not q else [True]):
                yield ["run", name, list(sp), dict(stepcontrol=sc, c=c, nfev=nfev, j_pre=pre)]


def deep_cases(q):
    "far too wide limits: many reductions and recycles before an increment is accepted"
    for name in ("chain", "par", "pframe"):
        for sp in PATS[:2] if q else PATS[:7]:
            for c, red, cycl in itertools.product([10, 25], [1.3, 1.7, 2.5], [12, 5]):
                for nfev in (6,) if q else (4, 6, 8):
                    yield ["run", name, list(sp), dict(stepcontrol=True, c=c, nfev=nfev, reduce=red, cycl=cycl, j_pre=True)]


def tower_cases(q):
    # 40 nodes, 131 bars
    for sc in (False, True):
        yield ["run", "pmast", [1] if q else [1, -0.5], dict(stepcontrol=sc, c=1, nfev=8, j_pre=True, incs=3)]
    for sp in PATS[1:4] if q else PATS:
        for sc, nfev in ((False, 8), (True, 8)) if q else ((False, 8), (True, 8), (True, 4), (False, 4)):
            yield ["run", "ptower", list(sp), dict(stepcontrol=sc, c=1, nfev=nfev, j_pre=True)]


AMP = {"chain": 0.35, "par": 0.12, "pframe": 0.12}


def run(case):
    return ops(case) if case[0] == "ops" else full(case)


def canon(ref, sv):
    "state array of the code -> list of (yield, plastic strain) with the default filled in"
    out = []
    for row, (lab, conn, mt, mp, A) in zip(np.asarray(sv, float), ref.elems):
        if mt == 2 and row[0] == 0.0:
            out.append((float(mp[2]), row[1]))
        elif mt == 2:
            out.append((row[0], row[1]))
        else:
            out.append((0.0, row[1]))
    return np.array(out)


def want_states(ref, states):
    out = []
    for st, (lab, conn, mt, mp, A) in zip(states, ref.elems):
        if mt == 2:
            out.append((float(mp[2]) if st[0] == 0 else st[0], st[1]))
        else:
            out.append((0.0, 0.0))
    return np.array(out)


def ops(case):
    import copy

    import trusspy as tp

    _, name, first, depth = case
    spec = op_structs()[name]
    ref = Ref(spec)
    o = Outcome()
    n = len(ref.DOF1)
    D = [
        AMP[name] * np.cos(1.3 * np.arange(n) * (k + 1) + 2.1 * k) * (1, -1.4, 0.3)[k]
        for k in range(3)
    ]
    M0 = prime(define(tp, spec))
    an0 = copy.deepcopy(M0.Analysis)

    def step(M, st, last, op):
        kind, d = divmod(op, 3)
        V = np.append(D[d], 0.1 * (d + 1))
        V0 = np.append(last, 0.0)
        ev = ref.eval(ref.expand(D[d]), st)
        if kind == 0:
            M.equilibrium(V.copy(), V0.copy())
        elif kind == 1:
            M.stiffness(D[d].copy())
        else:
            M.equilibrium(V.copy(), V0.copy(), statev_write=True)
            st, last = ev["state"], D[d]
        got = canon(ref, M.Analysis.state_v)
        if not close(got, want_states(ref, st), 1e-10):
            raise Violation(
                "material state after %s is not the committed one" % ("force evaluation", "stiffness evaluation", "commit")[kind],
                got=got, want=want_states(ref, st),
            )
        if kind != 1 and not close(np.ravel(M.Analysis.element_stress), ev["stress"], 1e-10):
            raise Violation("stress does not follow from the committed state", got=M.Analysis.element_stress, want=ev["stress"])
        o.step()
        o.state(name, rnd(want_states(ref, st), 9), rnd(last, 6))
        return st, last

    rest = depth - len(first)
    for tail in itertools.product(range(9), repeat=rest):
        M0.Analysis = copy.deepcopy(an0)
        st, last = ref.state0(), np.zeros(n)
        for op in list(first) + list(tail):
            st, last = step(M0, st, last, op)
        o.trace()
    o.outcomes.add((name, tuple(first)))
    o.sample = dict(case=case)
    return o


def full(case):
    import trusspy as tp

    _, name, sp, st = case
    if name == "pframe2":
        spec = op_structs()["pframe"]
    else:
        spec = S(name)
    d = spec["set"]
    st = dict(st)
    c = st.pop("c")
    incs = st.pop("incs", None)
    d.update(st)
    d["du"] *= c
    d["dlpf"] *= c
    d["incs"] = incs or (6 if len(sp) > 1 else 12)
    spec = steps(spec, sp)
    ref = Ref(spec)
    M, _ = execute(tp, spec)
    recs = records(M)
    o = Outcome()
    states = ref.state0()
    nyield = 0
    for i in range(1, len(recs)):
        R = recs[i]
        ev = ref.eval(R["U"], states)
        nyield += int(np.any(np.array(ev["state"])[:, 1] != np.array(states)[:, 1]))
        states = ev["state"]
        got = canon(ref, R["state_v"])
        if not close(got, want_states(ref, states), 1e-8):
            raise Violation("stored material state is not the update of the previous stored increment", increment=i, step=R["step"], got=got, want=want_states(ref, states))
        if not close(np.ravel(R["element_stress"]), ev["stress"], 1e-8):
            raise Violation("stored stress does not follow from the material history", increment=i, got=R["element_stress"], want=ev["stress"])
        o.step()
        o.state(name, rnd(want_states(ref, states), 8))
    o.trace()
    o.outcomes.add((name, len(recs), nyield))
    o.sample = dict(case=case, increments=len(recs) - 1, yielding_increments=nyield)
    return o


def final(tier, agg):
    y = {x[0] for x in agg["outcomes"] if len(x) == 3 and x[2] > 2}
    if not {"chain", "par", "pframe"} <= y:
        return dict(fail="no enumerated run yields in several increments: %r" % sorted(y))
    return dict(max_yielding_increments=max(x[2] for x in agg["outcomes"] if len(x) == 3))
