"""C12: every increment limit and every value limit (component x threshold) of the
enumerated runs; the stored sequence must end exactly where the rule says."""
import copy
import itertools

import numpy as np

from mc.core import Outcome, Violation
from mc.ref import Ref, close
from mc.runs import execute, records, settings
from mc.structures import S, steps

PROPERTY = "C12"
RULE = (
    "one case = structure x settings x watched component x limits x increment counts per "
    "step, executed completely; a transition is one stored increment at which the stop "
    "rule is evaluated; states are (structure, settings, component, threshold, increment)"
)
ASSUMPTIONS = [
    "settings under which no increment of the enumerated structures fails (the unlimited "
    "run stores every configured increment, checked for every case)",
]
BOUND = {
    "quick": "6 structures x 6 settings (tiny increments, locked load factor) x every component and the default x 7 thresholds; a tower of 24 free components x 11 of them x 4 thresholds; 2-step runs with all pairs of limits and increment counts {1,3,5}^2, 3-step runs with steps of no increment, up to 130 and 2100 increments; structure(s) of 40 nodes and 131 bars; own limits in each of up to 12 steps",
    "thorough": "7 structures x 8 settings x every component x 13 thresholds; a tower of 24 free components x 11 of them x 4 thresholds; 2- and 3-step runs, up to 300 and 2100 increments; structure(s) of 40 nodes and 131 bars; own limits in each of up to 12 steps",
}
CHUNK = 16
NAMES = ["bar1", "vm1", "tripod", "frame", "par", "chain", "nta"]
SETS = [
    dict(),
    dict(stepcontrol=True, dxtol=1.25),
    dict(c=0.5),
    dict(dxtol=1.25, c=0.7),
    dict(stepcontrol=True, increase=1.0, maxfac=2),
    # tiny increments, load factor locked, no pre-identification
    dict(c=1e-3),
    dict(j_fixed=True, c=0.5),
    dict(c=1e-4, j_pre=False, stepcontrol=True, increase=0.3),
]
N = 6


def cases(tier):
    q = tier == "quick"
    for k in (0, 1, 2, 5, 6, 7) if q else range(8):
        for name in NAMES[: 6 if q else 7]:
            n = len(Ref(S(name)).DOF1) + 1
            if name in ("par", "chain") and k in (1, 4):
                continue
            for comp in range(0, n + 1):
                yield ["one", name, k, comp, 1 if q else 2]
    for k in range(2 if q else 3):
        for comp in [0, 1, 2, 9, 10, 11, 12, 13, 20, 24, 25]:
            yield ["one", "tower", k, comp, 0]
    for k in (0, 6):
        for n in (30, 75, 130) if q else (30, 75, 130, 300):
            yield ["inc", "bar1", k, n]
            yield ["inc", "bar1", k, 2, n]
    # own limits of many steps
    for name in ("bar1", "chain", "frame"):
        for k in (0, 1, 6):
            yield ["many", name, k, [2, 1, 3, 1, 2, 4], 0]
            yield ["many", name, k, [1, 3, 2, 2, 1, 3, 2, 1, 1, 2, 1, 2], 0]
            yield ["many", name, k, [4] * 6, 1]
            yield ["many", name, k, [3] * 11, 1]
    yield ["inc", "mast", 0, 2, 1]
    for comp in (1, 36, 37, 108, 109):
        yield ["one", "mast", 0, comp, 0]
    # increments far below a thousandth of the state
    yield ["inc", "bar1", 5, 2100, 3]
    yield ["inc", "vm1", 7, 2100]
    for k in range(2 if q else 4):
        for name in ("vm1", "bar1", "tripod") + (() if q else ("frame",)):
            n = len(Ref(S(name)).DOF1) + 1
            for c1, c2 in itertools.product({1, n}, {1, n}):
                yield ["two", name, k, c1, c2]
            for i1, i2 in itertools.product([1, 3, 5], repeat=2):
                yield ["inc", name, k, i1, i2]
            for i1, i2, i3 in [(3, 0, 2), (0, 2, 3), (2, 3, 0), (0, 0, 2)]:
                yield ["inc", name, k, i1, i2, i3]
                if not q:
                    for i3 in (1, 2, 4):
                        yield ["inc", name, k, i1, i2, i3]


def spec_of(name, k, sp):
    spec = steps(S(name), sp)
    st = dict(SETS[k])
    c = st.pop("c", 1)
    d = spec["set"]
    d.update(st)
    d["du"], d["dlpf"] = d.get("du", 0.02) * c, d.get("dlpf", 0.02) * c
    if name == "nta":
        d["dlpf"] *= 0.5
        d["du"] *= 0.5
    return spec


def expect(recs, step, comp, limit, incs, o, tag):
    "apply the rule to the records of one step"
    mine = [r for r in recs[1:] if r["step"] == step]
    if len(mine) > incs:
        raise Violation("more increments than configured", step=step, got=len(mine), want=incs, **tag)
    over = [abs(r["Vred"][comp - 1]) > limit for r in mine]
    if True in over[:-1]:
        raise Violation("step continues after the limit was exceeded", step=step, exceeded_at=over.index(True) + 1, stored=len(mine), **tag)
    if len(mine) < incs and not (over and over[-1]):
        raise Violation("step ends early", step=step, stored=len(mine), incs=incs, **tag)
    o.step(len(mine))
    return mine


def run(case):
    import trusspy as tp

    o = Outcome()
    kind, name, k = case[:3]
    if kind == "one":
        comp, fine = case[3], case[4]
        base = spec_of(name, k, (1,))
        base["set"]["incs"] = N
        M, _ = execute(tp, base)
        full = records(M)
        if len(full) - 1 != N:
            raise Violation("step ends early without any limit", stored=len(full) - 1, want=N)
        vals = np.abs([r["Vred"][comp - 1] for r in full[1:]])
        s = np.unique(np.concatenate([[0.0], vals]))
        ths = [-1.0, s[-1] * 1.5 + 1e-3] + list((s[1:] + s[:-1]) / 2)
        if fine == 0:
            ths = ths[::2]
        if fine == 1:
            # just below and just above a value which is reached
            ths += [s[2] * (1 - 1e-7), s[2] * (1 + 1e-7)] if len(s) > 2 else []
        if fine == 2:
            ths += list(s[1:] * (1 - 1e-9)) + list(s[1:] * (1 + 1e-9))
        for th in ths:
            for incs in (N, 3) if fine else (N,):
                spec = spec_of(name, k, (1,))
                spec["set"].update(incs=incs, xlimit=(comp, float(th)))
                M, _ = execute(tp, spec)
                recs = records(M)
                expect(recs, 1, comp, th, incs, o, dict(component=comp, limit=th))
                m = len(recs)
                for a, b in zip(recs, full[:m]):
                    if not close(a["U"], b["U"], 0) or a["lpf"] != b["lpf"]:
                        raise Violation("the limit changed the increments before it", component=comp, limit=th)
                o.trace()
                o.state(name, k, comp, round(float(th), 9), incs, m)
                o.outcomes.add((name, comp, m))
    elif kind == "two":
        c1, c2 = case[3], case[4]
        base = spec_of(name, k, (1, 0.6))
        base["set"]["incs"] = (4, 4)
        M, _ = execute(tp, base)
        full = records(M)
        v1 = sorted(abs(r["Vred"][c1 - 1]) for r in full[1:] if r["step"] == 1)
        v2 = sorted(abs(r["Vred"][c2 - 1]) for r in full[1:] if r["step"] == 2)
        if len(v1) != 4 or len(v2) != 4:
            raise Violation("step ends early without any limit", stored=[len(v1), len(v2)])
        t1 = [v1[0] * 0.5, (v1[1] + v1[2]) / 2, 1e9]
        t2 = [v2[0] * 0.5, (v2[1] + v2[2]) / 2, 1e9]
        for a, b in itertools.product(t1, t2):
            for incs in ((4, 4), (4, 2), 3):
                spec = spec_of(name, k, (1, 0.6))
                spec["set"].update(incs=incs, xlimit=((c1, float(a)), (c2, float(b))))
                M, _ = execute(tp, spec)
                recs = records(M)
                i1, i2 = incs if isinstance(incs, tuple) else (incs, incs)
                expect(recs, 1, c1, a, i1, o, dict(limits=[a, b]))
                expect(recs, 2, c2, b, i2, o, dict(limits=[a, b]))
                o.trace()
                o.state(name, k, c1, c2, round(a, 9), round(b, 9), str(incs))
                o.outcomes.add((name, len(recs)))
        # one limit for all steps
        for a in t1:
            spec = spec_of(name, k, (1, 0.6))
            spec["set"].update(incs=4, xlimit=(c1, float(a)))
            M, _ = execute(tp, spec)
            recs = records(M)
            for s in (1, 2):
                expect(recs, s, c1, a, 4, o, dict(limit=a))
            o.trace()
    elif kind == "many":
        # every step has its own limits: of increments, or of its own component
        incs, lim = case[3], case[4]
        pat = [1.0, 0.6, 0.3, 0.8, 0.5, 0.4, 0.7, 0.2, 0.9, 0.35, 0.45, 0.55][: len(incs)]
        n = len(Ref(S(name)).DOF1) + 1
        base = spec_of(name, k, pat)
        base["set"]["incs"] = tuple(incs)
        todo = [tuple((1 + i % n, np.inf) for i in range(len(incs)))]
        if lim:
            # limits between the values reached in every other step, and the reverse
            for odd in (0, 1):
                th = []
                for i in range(len(incs)):
                    spec = copy.deepcopy(base)
                    spec["set"]["xlimit"] = tuple(th + [(0, float("inf"))] * (len(incs) - i))
                    M, _ = execute(tp, spec)
                    comp = n if i % 3 else 1
                    v = np.sort([abs(r["Vred"][comp - 1]) for r in records(M)[1:] if r["step"] == i + 1])
                    th.append((comp, float((v[0] + v[1]) / 2 if i % 2 == odd and i % 4 < 3 and len(v) > 1 else 2 * v[-1] if len(v) else np.inf)))
                todo.append(tuple(th))
        for th in todo:
            spec = copy.deepcopy(base)
            spec["set"]["xlimit"] = th
            M, _ = execute(tp, spec)
            recs = records(M)
            m = [len(expect(recs, s + 1, th[s][0], th[s][1], incs[s], o, dict(limits=th, increments=incs))) for s in range(len(incs))]
            o.trace()
            o.state(name, k, str(incs), str(th))
            o.outcomes.add((name, tuple(m)))
    else:
        incs = tuple(case[3:])
        spec = spec_of(name, k, (1, 0.6, 0.3)[: len(incs)])
        spec["set"]["incs"] = incs
        M, _ = execute(tp, spec)
        recs = records(M)
        for s, n in enumerate(incs):
            mine = expect(recs, s + 1, 0, np.inf, n, o, dict(increments=incs))
            if len(mine) != n:
                raise Violation("step does not store its own number of increments", step=s + 1, got=len(mine), want=n)
        o.trace()
        o.state(name, k, incs)
        o.outcomes.add((name, incs))
    o.sample = dict(case=case, transitions=o.transitions)
    return o
