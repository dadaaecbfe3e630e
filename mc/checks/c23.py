"""C23: all 48 symmetries of the coordinate axes x translations of whole executions."""
import functools
import itertools

import numpy as np

from mc.core import Outcome, Violation
from mc.ref import close
from mc.runs import execute, records
from mc.structures import S, steps

PROPERTY = "C23"
RULE = (
    "one case = structure x settings x axis symmetry (48) x translation; executed with "
    "the real code and compared with the transformed results of the original; one state "
    "per stored increment of each transformed run"
)
ASSUMPTIONS = [
    "no two components tie for the control component; with yielding "
    "elements adaptive step control is off, no overshoot is allowed and no step unloads (at the start of an increment such an element "
    "sits exactly on the yield limit, so rounding decides the predictor's tangent and with "
    "it the predicted control component, the iteration count and the failed attempts)",
    "agreement to 1e-6 relative (rounding of translated coordinates)",
]
BOUND = {
    "quick": "8 structures x 48 symmetries x 2 translations (a third, far one, for a quarter of them) x 2 settings (1 and 2 load steps); 2 towers of 12 nodes x 48 symmetries; structure(s) of 40 nodes and 131 bars",
    "thorough": "10 structures x 48 symmetries x 6 translations x 3 settings; 2 towers of 12 nodes x 48 symmetries; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 12
SETS = [
    ((1,), dict(incs=6)),
    ((1, -0.7), dict(incs=4, stepcontrol=True, dxtol=1.25)),
    ((1, 0.5), dict(incs=5, stepcontrol=True, nfev=4, j_pre=False)),
]
TR = [[0, 0, 0], [3.0, -2.0, 5.5], [-1.0, 0, 0], [0, -0.55, 7.0], [0.3, 11.0, -0.6], [900.0, -300.0, 2000.0]]
Q48 = [
    (p, s)
    for p in itertools.permutations(range(3))
    for s in itertools.product([1, -1], repeat=3)
]


PLASTIC = ("par", "pframe", "chain", "ptower")


def case_spec(name, k):
    pat, st = SETS[k]
    if name in PLASTIC:
        st = dict(st, stepcontrol=False, nfev=8, dxtol=1.000001)
        pat = [abs(v) for v in pat]
    return steps(S(name, **st), pat)


def cases(tier):
    q = tier == "quick"
    names = ["vm1", "vm2", "tripod", "frame", "par", "pframe", "chain", "twin"]
    if not q:
        names += ["bar1", "nta"]
    for iq in range(48):
        yield ["tower", 0 if q else iq % 3, iq, iq % 6]
        if not q or iq % 4 == 0:
            yield ["ptower", 0, iq, 1]
    for iq in (7, 22, 41) if q else range(0, 48, 5):
        yield ["mast", 0, iq, iq % 6]
    for k in range(2 if q else 3):
        for name in names:
            for iq in range(48):
                for it in (0, 1, 5) if q else range(6):
                        if q and it == 5 and iq % 4 != k:
                            continue
                        yield [name, k, iq, it]


def matrix(iq):
    p, s = Q48[iq]
    Q = np.zeros((3, 3))
    for i in range(3):
        Q[i, p[i]] = s[i]
    return Q


@functools.lru_cache(None)
def base(name, k):
    import trusspy as tp

    M, _ = execute(tp, case_spec(name, k))
    return records(M)


def run(case):
    import trusspy as tp

    name, k, iq, it = case
    want = base(name, k)
    spec = case_spec(name, k)
    Q, t = matrix(iq), np.array(TR[it], float)
    for n in spec["nodes"]:
        n[1] = (Q @ np.array(n[1], float) + t).tolist()
    P = np.abs(Q).astype(int)
    for b in spec["bounds"]:
        b[1] = (P @ np.array(b[1])).tolist()
    for f in spec["forces"]:
        v = np.array(f[1], float).reshape(-1, 3)
        f[1] = (v @ Q.T).ravel().tolist()
    M, _ = execute(tp, spec)
    got = records(M)
    o = Outcome()
    if len(got) != len(want):
        raise Violation("number of increments changed", got=len(got), want=len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if g["step"] != w["step"] or not close(g["lpf"], w["lpf"], 1e-6):
            raise Violation("load factor changed", increment=i, got=g["lpf"], want=w["lpf"])
        for f in ("U", "U0", "r", "fc"):
            if not close(g[f], w[f] @ Q.T, 1e-6):
                raise Violation("%s is not rotated/mirrored with the structure" % f, increment=i, got=g[f], want=w[f] @ Q.T)
        for f in ("stretch", "element_stress", "element_force"):
            if not close(g[f], w[f], 1e-6):
                raise Violation("%s changed" % f, increment=i, got=g[f], want=w[f])
        o.step()
        o.state(case, i)
    o.trace()
    o.outcomes.add((name, k, len(got)))
    o.sample = dict(case=case, increments=len(got) - 1)
    return o
