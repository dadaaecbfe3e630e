"""C01: every stored increment of every enumerated run is re-assembled from the stored
displacements and element forces only, and balanced against the load of the definition."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close
from mc.runs import execute, records, settings, total_load
from mc.structures import S, relabel, steps

PROPERTY = "C01"
RULE = (
    "one case = structure x load-step pattern x support pattern x settings; executed "
    "completely with the real code; each stored increment is a transition, its rounded "
    "(structure, U, lpf) a state"
)
ASSUMPTIONS = [
    "force tolerance is the residual norm 10**-ftol over the free components",
    "elements keep positive length; loads are generic (no bifurcation on the path)",
]
BOUND = {
    "quick": "9 structures x 3 step patterns x 2^5 settings, 2 towers (12 nodes, 26 bars) x 2 x 2^4, + 3 magnitudes of the load factor (to 1e5) x 2 step patterns x 2 settings, + 5 limits of the path x 4 settings, + all 63 support patterns of two free nodes of a frame x 2 settings; structure(s) of 40 nodes and 131 bars; loads of very different size",
    "thorough": "9 structures x 5 step patterns x 2^8 settings, 2 towers (12 nodes, 26 bars) x 5 x 2^5, + 3 magnitudes of the load factor x 5 step patterns x 4 settings, + 5 limits of the path x 16 settings, + all 63 support patterns x 8 settings; structure(s) of 40 nodes and 131 bars; loads of very different size",
}
CHUNK = 6
NAMES = ["bar1", "vm1", "vm2", "tripod", "frame", "nta", "chain", "par", "pframe"]
AX = dict(
    stepcontrol=[False, True],
    dxtol=[1.000001, 1.25],
    coarse=[1, 3],
    tol=[(8, 8), (3, 1)],
    j_pre=[True, False],
    nfev=[8, 4],
    cycl=[4, 2],
    small=[1, 1e-3],
)
QUICK = ["stepcontrol", "dxtol", "coarse", "tol", "j_pre"]
STEPS = [(1,), (1, -1), (1, -0.5, 1), (0.5, 0.5), (1, -2, 1, 1)]


def cases(tier):
    ax = QUICK if tier == "quick" else list(AX)
    pats = STEPS[:3] if tier == "quick" else STEPS
    for vals in itertools.product(*[range(len(AX[a])) for a in ax]):
        st = {a: AX[a][v] for a, v in zip(ax, vals)}
        for name in NAMES:
            for sp in pats:
                yield ["run", name, list(sp), None, st]
    # 12 nodes, 26 bars
    for name in ("tower", "ptower"):
        for vals in itertools.product(*[range(len(AX[a])) for a in QUICK]):
            if tier == "quick" and sum(vals) % 2:
                continue
            st = {a: AX[a][v] for a, v in zip(QUICK, vals)}
            for sp in pats[:2] if tier == "quick" else pats:
                yield ["run", name, list(sp), None, st]
    # 40 nodes, 131 bars
    for name in ("mast", "pmast"):
        for k in range(2 if tier == "quick" else 4):
            yield ["run", name, [1] if k != 1 else [1, -0.6], None, dict(stepcontrol=bool(k & 1), dxtol=1.25, coarse=1, j_pre=not k & 2)]
    # loads of very different sizes
    for mag in range(3):
        for k in range(4):
            yield ["run", "frame", [1, {4: [[3e-5, 0.2, 0], [0, 1e-6, -0.3], [1e-9, -0.2, 2e-7]][mag], 5: [[-0.2, 7e-7, 4e-4], [1e-5, 0, 2e-4], [0, 1e-4, 3e-3]][mag]}], None, dict(stepcontrol=bool(k & 1), dxtol=1.25, coarse=1, j_pre=not k & 2)]
            yield ["run", "mix", [[1], [1, -0.6], [1, 0.5]][mag], None, dict(stepcontrol=bool(k & 1), dxtol=1.25, coarse=1, j_pre=not k & 2, mag=[1e-5, 1e-3, 3e-8][mag])]
    # load factors far from one
    for name in NAMES:
        for sp in pats[:2] if tier == "quick" else pats:
            for c in (1e-4, 3e3, 1e7):
                for k in range(2 if tier == "quick" else 4):
                    yield ["run", name, list(sp), None, dict(stepcontrol=bool(k & 1), dxtol=1.25, coarse=1, j_pre=not k & 2, lpf=c)]
    # limits of the load factor and of a displacement component
    for name in NAMES:
        for sp in pats:
            for lim in ([0, 1.5], [0, 2.5], [1, 1.5], [1, 0.4], [-1, 1.5]):
                for k in range(4 if tier == "quick" else 16):
                    st = dict(
                        stepcontrol=bool(k & 1),
                        dxtol=1.25 if k & 2 else 1.000001,
                        coarse=1 + 2 * bool(k & 4),
                        j_pre=not k & 8,
                        limit=lim,
                    )
                    yield ["lim", name, list(sp), None, st]
    for mask in range(1, 64):
        for k in range(2 if tier == "quick" else 8):
            st = dict(
                stepcontrol=bool(k & 1), coarse=1 + 2 * bool(k & 2), j_pre=not k & 4
            )
            yield ["sup", "frame", [1, -1], mask, st]


def make(case):
    kind, name, sp, mask, st = case
    spec = S("frame" if name == "mix" else name)
    # dictionaries of loads come from replayed cases with keys of strings
    sp = [{int(l): f for l, f in x.items()} if isinstance(x, dict) else x for x in sp]
    d = spec["set"]
    if "mag" in st:
        # the second node carries next to nothing
        spec["forces"] = [[l, [v * (st["mag"] if l == 5 else 1.0) for v in f]] for l, f in spec["forces"]]
    d["incs"] = 5
    d["du"] = d.get("du", 0.02) * st.get("coarse", 1) * st.get("small", 1)
    d["dlpf"] = d.get("dlpf", 0.02) * st.get("coarse", 1) * st.get("small", 1)
    if "lpf" in st:
        # the same loads, given as small reference loads with large factors
        d["dlpf"] *= st["lpf"]
        spec["forces"] = [[l, [v / st["lpf"] for v in f]] for l, f in spec["forces"]]
    for k in ("stepcontrol", "dxtol", "j_pre", "nfev", "cycl"):
        if k in st:
            d[k] = st[k]
    if "limit" in st:
        c, fac = st["limit"]
        ref = Ref(spec)
        # component number as in the documentation: 0 load factor, 1.. components
        c = len(ref.DOF1) if c == -1 else c
        d["xlimit"] = [c, fac * (d["du"] if c else d["dlpf"])]
    if "tol" in st:
        d["ftol"], d["xtol"] = st["tol"]
    if mask is not None:
        bits = [(mask >> i) & 1 for i in range(6)]
        spec["bounds"] = [b for b in spec["bounds"] if b[0] in (1, 2, 3)] + [
            [4, bits[:3]],
            [5, bits[3:]],
        ]
        spec = relabel(spec, {1: 12, 2: 3, 3: 40, 4: 7, 5: 25})
    return steps(spec, sp)


def run(case):
    import trusspy as tp

    spec = make(case)
    ref = Ref(spec)
    M, _ = execute(tp, spec)
    recs = records(M)
    o = Outcome()
    tol = 10.0 ** -settings(spec)["ftol"]
    states = ref.state0()
    for i in range(1, len(recs)):
        R = recs[i]
        U, N = R["U"], np.ravel(R["element_force"])
        r = np.zeros((ref.nn, 3))
        for k, (lab, (a, b), mt, mp, A) in enumerate(ref.elems):
            ia, ib = ref.pos[a], ref.pos[b]
            d = ref.X[b] + U[ib] - ref.X[a] - U[ia]
            n = d / np.sqrt((d**2).sum())
            r[ia] -= N[k] * n
            r[ib] += N[k] * n
        res = (total_load(ref, recs, i) - r).ravel()[ref.DOF1]
        if not np.sqrt((res**2).sum()) <= tol * 1.0001 + 1e-13:
            raise Violation(
                "stored increment is not in equilibrium",
                increment=i,
                residual=res,
                tolerance=tol,
            )
        if np.any(U.ravel()[ref.DOF0] != 0.0):
            raise Violation("locked component is displaced", increment=i, U=U)
        if not close(R["r"], r, 1e-10):
            raise Violation(
                "stored nodal forces are not the sum of the element forces",
                increment=i,
                got=R["r"],
                want=r,
            )
        ev = ref.eval(U, states)
        states = ev["state"]
        for key, want in (
            ("stretch", ev["stretch"]),
            ("element_stress", ev["stress"]),
            ("element_force", ev["force"]),
        ):
            if not close(np.ravel(R[key]), want, 1e-9):
                raise Violation(
                    "stored %s does not belong to the stored displacements" % key,
                    increment=i,
                    got=R[key],
                    want=want,
                )
        o.step()
        o.state(case[1], case[3], rnd(U, 7), round(R["lpf"], 7))
    o.trace()
    o.outcomes.add((case[1], len(recs)))
    o.sample = dict(case=case, increments=len(recs) - 1)
    return o
