"""C02 element law: all orientations x end displacements x properties of a lattice,
evaluated one after the other on the same model (so leftovers of an earlier
evaluation would show), against the documented equations."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64, rnd
from mc.ref import Ref, close, define, prime

PROPERTY = "C02"
RULE = (
    "one case = one single-element model (orientation, offset, order of the end nodes, "
    "modulus, area, material, extra inert element or not); within it every pair of end "
    "displacements of the lattice is one transition (evaluate forces, with a stiffness "
    "evaluation in between); a state is the (orientation, displacement, property) tuple"
)
ASSUMPTIONS = [
    "element length stays positive (degenerate zero-length elements are excluded)",
    "values are IEEE doubles; agreement to 1e-9 relative",
]
BOUND = {
    "quick": "orientations {-1,0,1,2.5}^3 minus 0 and short, and nearly along an axis; displacement lattice {-.4,0,.7}^3 x 3 begin displacements; 5 property sets and 2 with unused further properties; length units 1, 1e-5, 1e5; 52 displacements from 1e-6 to 300 lengths; 48 exact rotations and mirrorings x 2 translations; 64 support patterns of the end nodes x 4 orientations x 6 displacements",
    "thorough": "orientations {-2,-1,0,1,2.5}^3 and nearly along an axis; displacement lattice {-1.3,-.4,0,.7}^3 x {-.3,0,.6}^3; 8 property sets and 2 with unused further properties; length units 1, 1e-5, 1e-3, 1e3, 1e5; 52 displacements from 1e-6 to 300 lengths; 48 exact rotations and mirrorings x 9 translations; 64 support patterns of the end nodes x 4 orientations x 6 displacements",
}
PROPS = [
    (1, [1.0], 1.0),
    (1, [2.5], 0.3),
    (1, [1000.0], 7.0),
    (2, [1.0, 0.1, 0.1], 1.5),
    (2, [3.0, 0.0, 0.4], 0.7),
    (2, [10.0, 5.0, 1.0], 2.0),
    (1, [0.01], 20.0),
    (2, [1.0, 1.0, 100.0], 1.0),
    # more properties than the element uses: the first ones count
    (1, [1.5, 7.0, 3.0, 11.0], [0.4, 2.5, 9.0]),
    (2, [2.0, 0.3, 0.1, 5.0], [1.2, 0.3]),
]
# lengths in other units (microns to kilometres): the law has no length scale
SCALES = [1e-5, 1e-3, 1e5, 1e3]
CHUNK = 16


def cases(tier):
    ax = [-1.0, 0.0, 1.0, 2.5] if tier == "quick" else [-2.0, -1.0, 0.0, 1.0, 2.5]
    np_ = 5 if tier == "quick" else 8
    for d in itertools.product(ax, ax, ax):
        if sum(v * v for v in d) < 0.5:
            continue
        for ip in range(np_):
            for swap in (0, 1):
                yield [tier, list(d), ip, swap, 1.0]
        for swap in (0, 1) if tier != "quick" else (0,):
            for ip in (8, 9):
                yield [tier, list(d), ip, swap, 1.0]
        for ip in (0, 3):
            for sc in SCALES if tier != "quick" else SCALES[::2]:
                yield [tier, list(d), ip, 0, sc]
    # nearly along an axis
    for i, sg in itertools.product(range(3), (1.0, -1.0)):
        for t in (0.04, 0.004, 1e-8) if tier == "quick" else (0.2, 0.04, 0.004, 3e-4, 1e-5, 1e-8):
            d = [0.7 * t, -0.6 * t]
            d.insert(i, 1.3 * sg)
            for ip in (0, 3):
                yield [tier, d, ip, 0, 1.0]
    # elements between (partly) supported nodes, beside another element
    for d in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 2.5], [1.0, -1.0, 2.5]]:
        for ip in (0, 3, 8) if tier == "quick" else [*range(np_), 8, 9]:
            for mask in range(64):
                for swap in (0, 1):
                    yield ["sup", d, ip, swap, mask]


def wide(a, A):
    "an area beside the geometric properties A (the table is rectangular)"
    return [a] + [v + 1.0 for v in A[1:]] if isinstance(A, list) else a


def run_sup(case):
    "every support pattern of the end nodes; only the free components are displaced"
    import trusspy as tp

    _, d, ip, swap, mask = case
    o = Outcome()
    mt, mp, A = PROPS[ip]
    X = np.array([[0.3, -0.2, 0.1], [0.0, 0.0, 0.0], [0.7, 0.9, -0.8]])
    X[1] = X[0] + d
    bits = [(mask >> i) & 1 for i in range(6)]
    spec = dict(
        nodes=[[4, X[0].tolist()], [9, X[1].tolist()], [2, X[2].tolist()]],
        elems=[
            [5, [9, 4] if swap else [4, 9], mt, mp, A],
            [3, [4, 2], 1, [1.7], wide(0.6, A)],
            [8, [2, 9], 2, [2.0, 0.1, 0.2], wide(1.1, A)],
        ],
        bounds=[[4, bits[:3]], [9, bits[3:]]],
        forces=[[2, [1.0, 0.0, 0.0]]],
    )
    ref = Ref(spec)
    M = prime(define(tp, spec))
    V0 = np.zeros(len(ref.DOF1) + 1)
    for k in range(6):
        Ur = [0.0, 0.13, -0.13, 0.4, -0.05, 0.0][k] * np.cos(1.3 * np.arange(len(ref.DOF1)) + k)
        U = ref.expand(Ur)
        g = M.equilibrium(np.append(Ur, 0.0), V0)
        want = ref.eval(U)
        an = M.Analysis
        for name, got, exp in (
            ("stretch", np.ravel(an.stretch), want["stretch"]),
            ("stress", np.ravel(an.element_stress), want["stress"]),
            ("element force", np.ravel(an.element_force), want["force"]),
            ("nodal forces", an.r, want["r"]),
            ("equilibrium (minus nodal forces)", -np.ravel(g), want["r"].ravel()[ref.DOF1]),
        ):
            if not close(got, exp, 1e-9):
                raise Violation(name + " differs from the truss law between supports", free=bits, U=U, got=got, want=exp)
        o.step()
        o.state(case, k)
    o.trace()
    o.sample = dict(case=case, evaluations=o.transitions)
    return o


# the 48 signed permutations: exact rotations and reflections of an element
GROUP = [
    [(p[i], s[i]) for i in range(3)]
    for p in itertools.permutations(range(3))
    for s in itertools.product((1.0, -1.0), repeat=3)
]


def run(case):
    import trusspy as tp

    if case[0] == "sup":
        return run_sup(case)
    tier, d, ip, swap, sc = case
    o = Outcome()
    d = [v * sc for v in d]
    off = sc * np.array([3.0, -2.0, 5.0]) * ((ip + swap) % 2)
    mt, mp, A = PROPS[ip]
    # the element is listed as (2,1) when swapped; labels are 1 and 2
    spec = dict(
        nodes=[[1, off.tolist()], [2, (off + d).tolist()]],
        elems=[[1, [2, 1] if swap else [1, 2], mt, mp, A]],
        bounds=[],
        forces=[[2, [1.0, 0.0, 0.0]]],
    )
    ref = Ref(spec)
    M = prime(define(tp, spec))
    if tier == "quick":
        ub = list(itertools.product([-0.4, 0.0, 0.7], repeat=3))
        ua = [(0.0, 0.0, 0.0), (0.3, -0.2, 0.5), (-0.6, 0.0, 0.1)]
    else:
        ub = list(itertools.product([-1.3, -0.4, 0.0, 0.7], repeat=3))
        ua = list(itertools.product([-0.3, 0.0, 0.6], repeat=3))
    V0 = np.zeros(7)
    base = h64(case[1:])
    pairs = list(itertools.product(ua, ub))
    # rigid motions: the element is turned or mirrored and moved at unchanged length
    for g_ in GROUP:
        q = [sg * d[i] / sc for i, sg in g_]
        for a in ua[:2] if tier == "quick" else ua[:9]:
            pairs.append((a, [a[i] + q[i] - d[i] / sc for i in range(3)]))
    # stretched, shortened and displaced from one millionth to hundreds of its length
    u = np.array(d) / sc
    skew = np.array([u[1] - 0.3, u[2] + 0.7, -u[0] + 0.2])
    for f in (1e-6, 1e-4, 2e-3, 0.03, -2e-5, -0.01, -0.9, 1.5, 2.5, 4.0, 9.0, 40.0, 300.0):
        pairs.append(((0.0, 0.0, 0.0), list(f * u)))
        pairs.append((list(-0.5 * f * u), list(0.5 * f * u)))
        pairs.append(((0.0, 0.0, 0.0), list(f * skew)))
        pairs.append((list(f * skew), list(f * skew)))
    # long and short while tilted by a millionth to a thousandth only
    for f in (1e-7, 2e-6, 3e-5, 4e-4, 5e-3):
        for c in (0.3, -0.4):
            pairs.append(((0.0, 0.0, 0.0), list(c * u + f * skew)))
            pairs.append((list(-c * u - f * skew), (0.0, 0.0, 0.0)))
    for k, (a, b) in enumerate(pairs):
        U = sc * np.array([a, b])
        if np.linalg.norm(np.array(d) + U[1] - U[0]) < 0.05 * sc:
            continue
        if k % 5 == 0:
            M.stiffness(U.ravel().copy())
        g = M.equilibrium(np.append(U.ravel(), 0.0), V0)
        want = ref.eval(U)
        an = M.Analysis
        for name, got, exp in (
            ("stretch", np.ravel(an.stretch), want["stretch"]),
            ("stress", np.ravel(an.element_stress), want["stress"]),
            ("element force", np.ravel(an.element_force), want["force"]),
            ("nodal forces", an.r, want["r"]),
            ("equilibrium (minus nodal forces)", -np.ravel(g), want["r"].ravel()),
        ):
            if not close(got, exp, 1e-9):
                raise Violation(
                    name + " differs from the truss law",
                    orientation=d,
                    swap=swap,
                    U=U,
                    got=got,
                    want=exp,
                )
        # self-equilibrium
        x = np.array([off, off + d]) + U
        if not close(an.r.sum(axis=0), np.zeros(3), 1e-7 * (1 + abs(want["force"][0]))):
            raise Violation("element forces do not cancel", U=U)
        mom = np.cross(x[0], an.r[0]) + np.cross(x[1], an.r[1])
        if not np.all(np.abs(mom) <= 1e-7 * sc * (1 + abs(want["force"][0]))):
            raise Violation("element moment is not zero", U=U, moment=mom)
        o.step()
        o.states.add(h64(base, k))
        o.outcomes.add(rnd(want["stress"], 3))
    o.trace()
    o.sample = dict(case=case, evaluations=o.transitions)
    return o
