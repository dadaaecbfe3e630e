"""C25: complete runs in other units of length and force, against the run in the original
units."""
import functools
import itertools
import math

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import close
from mc.runs import execute, records
from mc.structures import S, steps

PROPERTY = "C25"
RULE = (
    "one case = structure x load-step pattern x settings x (length unit, force unit); the "
    "converted definition is run with the real code and its results, converted back, are "
    "compared with the run in the original units: one validated trace, one transition per "
    "stored increment"
)
ASSUMPTIONS = [
    "the increase of adaptive step control is off (it depends on the number of iterations, "
    "and the absolute tolerances mix lengths and load factors); elastic-plastic "
    "structures without unloading and overshoot (see C05)",
    "agreement to 1e-6 relative; with a fixed Jacobian lengths from 1e-4 only (one "
    "absolute tolerance is applied to displacements and the load factor)",
]
BOUND = {
    "quick": "9 structures x 3 load-step patterns x 6 settings x 15 unit pairs (length 1e-6..1e7, force 1e-6..1e8)",
    "thorough": "9 structures x 4 load-step patterns x 6 settings x 79 unit pairs (length 1e-7..1e7, force 1e-6..1e8)",
}
CHUNK = 8
NAMES = ["bar1", "vm1", "vm2", "tripod", "frame", "nta", "chain", "par", "pframe"]
PLASTIC = ("par", "pframe", "chain")
PAT = [(1,), (1, -0.6), (1, 0.5), (0.5, 0.5, 0.5)]
SETS = [
    dict(),
    dict(stepcontrol=True, increase=0.0, dxtol=1.25),
    dict(j_pre=False, dxtol=1.25),
    dict(j0=-1),
    dict(j0=-1, j_fixed=True),
    dict(stepcontrol=True, increase=0.0, j_pre=False, cycl=2),
]
CQ = [1e-3, 0.3048, 1.0, 1e3]
FQ = [1e-3, 1.0, 1e6]
FAR = [(1e-6, 1.0), (1e-5, 1e8), (1e6, 1.0), (1e7, 1e-6)]
CT = [1e-4, 1e-3, 1e-2, 0.3048, 1.0, 39.37, 1e3, 1e4]
FT = [1e-4, 1e-3, 1.0, 4.448, 1e3, 1e6, 1e7]


def cases(tier):
    q = tier == "quick"
    for name in NAMES:
        for ip in range(3 if q else 4):
            for k in range(6):
                for c in CQ if q else CT:
                    for f in FQ if q else FT:
                        if (c, f) != (1.0, 1.0):
                            yield [name, ip, k, c, f]
                # far away units
                for c, f in FAR if q else itertools.product([1e-7, 1e-6, 1e-5, 1e5, 1e6, 1e7], [1e-6, 1e-2, 1.0, 1e8]):
                    # the tolerance of lengths is applied to the load factor as well: with
                    # a fixed Jacobian it cannot be reached at the tiniest units of length
                    if k != 4 or c >= 1e-4:
                        yield [name, ip, k, c, f]


def case_spec(name, ip, k):
    pat, st = PAT[ip], dict(SETS[k], incs=5)
    if name in PLASTIC:
        st.update(stepcontrol=False, dxtol=1.000001)
        pat = [abs(p) for p in pat]
    return steps(S(name, **st), pat)


@functools.lru_cache(None)
def base(name, ip, k):
    import trusspy as tp

    M, _ = execute(tp, case_spec(name, ip, k))
    return records(M)


def convert(spec, c, f):
    st = spec["set"]
    st["du"] = st.get("du", 0.02) * c
    st["ftol"] = 8 - math.log10(f)
    st["xtol"] = 8 - math.log10(c)
    for n in spec["nodes"]:
        n[1] = [c * v for v in n[1]]
    for e in spec["elems"]:
        e[3] = [f / c**2 * v for v in e[3]]
        e[4] = c**2 * e[4]
    for F in spec["forces"]:
        F[1] = [f * v for v in F[1]]
    return spec


def run(case):
    import trusspy as tp

    name, ip, k, c, f = case
    want = base(name, ip, k)
    M, _ = execute(tp, convert(case_spec(name, ip, k), c, f))
    got = records(M)
    o = Outcome()
    if len(got) != len(want):
        raise Violation("number of increments changed", got=len(got), want=len(want))
    unit = dict(U=c, U0=c, r=f, fc=f, f=f, stretch=1.0, element_stress=f / c**2, element_force=f, lpf=1.0, step=1.0)
    for i, (g, w) in enumerate(zip(got, want)):
        for key, u in unit.items():
            if not close(np.ravel(np.asarray(g[key]) / u), np.ravel(w[key]), 1e-6):
                raise Violation("%s is not converted with the units" % key, increment=i, got=np.asarray(g[key]) / u, want=w[key])
        if w["state_v"] is not None:
            if not close(g["state_v"][:, 1], w["state_v"][:, 1], 1e-6):
                raise Violation("plastic strain depends on the units", increment=i, got=g["state_v"][:, 1], want=w["state_v"][:, 1])
            if not close(g["state_v"][:, 0] / (f / c**2), w["state_v"][:, 0], 1e-6):
                raise Violation("yield stress is not converted with the units", increment=i, got=g["state_v"][:, 0] / (f / c**2), want=w["state_v"][:, 0])
        o.step()
        o.state(case, i, rnd(w["U"], 8))
    o.trace()
    o.outcomes.add((name, ip, k, len(got)))
    o.sample = dict(case=case, increments=len(got) - 1)
    return o
