"""C04 assembly: every sequence of ordered node pairs (multigraphs with orientation) up to
the bound, under several label maps, insertion orders and material mixes: global forces
and stiffness equal the sum of the element contributions at their own nodes; the same for larger graphs."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import Ref, close, define, prime
from mc.structures import LIB

PROPERTY = "C04"
RULE = (
    "one case = multigraph (sequence of ordered node pairs) x label map x material mix; "
    "transitions = evaluations of forces and stiffness at 2 displacement states; state = "
    "(graph, labels, mix, displacement)"
)
ASSUMPTIONS = ["no element joins a node with itself", "agreement to 1e-9 relative"]
BOUND = {
    "quick": "2-4 nodes, <=2 elements: all; 3 elements on 4 nodes: all up to the first element's orientation; 4 label maps, 3 material mixes; 10 larger graphs (up to 40 nodes, 131 elements) x 4 labellings x 3 mixes x 3 entry orders",
    "thorough": "2-4 nodes, <=3 elements: all, 4 elements on 4 nodes: all up to first element = (a,b); 6 label maps, 3 mixes; larger: every graph of 5 elements on 3 nodes; 10 larger graphs (up to 40 nodes, 131 elements) x 4 labellings x 3 mixes x 12 entry orders",
}
CHUNK = 32
POS = [[0.0, 0.1, 0.0], [1.1, 0.0, 0.3], [0.2, 0.9, -0.4], [0.5, 0.4, 1.2]]
# label of node i, element labels, order in which nodes are entered
MAPS = [
    ([1, 2, 3, 4], [1, 2, 3, 4, 5], [0, 1, 2, 3]),
    ([4, 2, 3, 1], [5, 4, 3, 2, 1], [2, 0, 3, 1]),
    ([16777219, 7, 16777217, 25], [20, 33554433, 11, 33554435, 7], [3, 2, 1, 0]),
    ([2, 4, 1, 3], [2, 3, 4, 5, 6], [1, 0, 3, 2]),
    ([5, 6, 9, 8], [1, 10, 2, 9, 5], [0, 3, 1, 2]),
    ([100, 99, 1, 50], [9, 8, 1, 2, 3], [3, 0, 2, 1]),
]
P1, P2, E1, E2 = (2, [2.0, 0.5, 0.08]), (2, [1.0, 0.2, 0.3]), (1, [1.5]), (1, [40.0])
MIX = [
    [(E1, 1.0), (E2, 0.2), (E1, 3.0), (E2, 1.0), (E1, 0.5)],
    [(P1, 1.0), (E1, 0.7), (P2, 2.0), (E2, 0.3), (P1, 0.9)],
    [(E2, 0.4), (P2, 1.0), (P1, 1.5), (E1, 1.0), (P2, 0.1)],
]


def graphs(n, m, sym=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    first = [(0, 1)] if sym else pairs
    for f in first:
        for rest in itertools.product(pairs, repeat=m - 1):
            yield [f] + list(rest)


def big(name):
    "larger graphs: (positions, ordered node pairs)"
    if name in LIB:
        sp = LIB[name]
        ix = {l: i for i, (l, _) in enumerate(sp["nodes"])}
        return [x for _, x in sp["nodes"]], [(ix[a], ix[b]) for _, (a, b), *_ in sp["elems"]]
    n = int(name[1:])
    pos = [[0.9 * (i % 4) + 0.1 * (i // 3), 0.8 * (i // 4) - 0.07 * (i % 3), 0.6 * ((3 * i) % 5)] for i in range(n)]
    if name[0] == "K":  # complete graph
        return pos, [(i, j) if (i + j) % 2 else (j, i) for i in range(n) for j in range(i)]
    if name[0] == "c":  # chain
        return pos, [(i, i + 1) for i in range(n - 1)]
    return pos, [(0, i) if i % 3 else (i, 0) for i in range(1, n)]  # star


BIG = ["tower", "K5", "K8", "c11", "c14", "s12", "mast", "c40", "s25", "K15"]


def cases(tier):
    for name in BIG:
        for il in range(4):
            for mix in range(3):
                for rot in range(3 if tier == "quick" else 12):
                    yield ["big", name, il, mix, rot]
    gs = []
    for n in (2, 3, 4):
        for m in (1, 2):
            gs += [(n, g) for g in graphs(n, m)]
    if tier == "quick":
        gs += [(3, g) for g in graphs(3, 3, True)]
        gs += [(4, g) for g in graphs(4, 3, True)]
    else:
        gs += [(3, g) for g in graphs(3, 3)] + [(4, g) for g in graphs(4, 3)]
        gs += [(4, g) for g in graphs(4, 4, True)]
        gs += [(3, g) for g in graphs(3, 5, True)]
    nm = 4 if tier == "quick" else 6
    for n, g in gs:
        for im in range(nm):
            for mix in range(3):
                yield [n, [list(p) for p in g], im, mix]


def run(case):
    if case[0] == "big":
        return run_big(case)
    import trusspy as tp

    n, g, im, mix = case
    nl, el, order = MAPS[im]
    spec = dict(
        nodes=[[nl[i], POS[i]] for i in order if i < n],
        elems=[
            [el[k], [nl[a], nl[b]], MIX[mix][k][0][0], MIX[mix][k][0][1], MIX[mix][k][1]]
            for k, (a, b) in enumerate(g)
        ],
        bounds=[],
        forces=[[nl[0], [1.0, 0.0, 0.0]]],
    )
    return judge(case, n, spec)


def run_big(case):
    _, name, il, mix, rot = case
    pos, g = big(name)
    n, m = len(pos), len(g)
    # labels counted up from one (one and two digits), down, shuffled, far apart
    lab = lambda i, k: [i + 1, k - i, (next(s for s in (5, 7, 11) if k % s) * i + 3) % k + 1, 17 * ((3 * i) % (k + 1 if k % 3 == 0 else k)) + 2][il]
    nl, el = [lab(i, n) for i in range(n)], [lab(k, m) for k in range(m)]
    order = [(i + rot * 3) % n for i in range(n)][:: -1 if rot % 2 else 1]
    spec = dict(
        nodes=[[nl[i], pos[i]] for i in order],
        elems=[
            [el[k], [nl[g[k][0]], nl[g[k][1]]], MIX[mix][k % 5][0][0], MIX[mix][k % 5][0][1], MIX[mix][k % 5][1] * (1 + 0.05 * k)]
            for k in [(k + rot * 5) % m for k in range(m)]
        ],
        bounds=[],
        forces=[[nl[0], [1.0, 0.0, 0.0]]],
    )
    assert len(set(nl)) == n and len(set(el)) == m, case
    return judge(case, n, spec)


def judge(case, n, spec):
    import trusspy as tp

    ref = Ref(spec)
    o = Outcome()
    M = prime(define(tp, spec))
    V0 = np.zeros(3 * n + 1)
    for k, amp in enumerate((0.15, -0.3)):
        U = amp * np.cos(1.3 * np.arange(3 * n) * (k + 1) + 0.5)
        M.equilibrium(np.append(U, 0.0), V0)
        ev = ref.eval(U.reshape(n, 3))
        an = M.Analysis
        for what, got, want in (
            ("internal force vector", an.r, ev["r"]),
            ("element forces", np.ravel(an.element_force), ev["force"]),
            ("element stress", np.ravel(an.element_stress), ev["stress"]),
            ("stretch", np.ravel(an.stretch), ev["stretch"]),
        ):
            if not close(got, want, 1e-9):
                raise Violation(what + " is not the assembly of the elements", got=got, want=want)
        K = np.array(M.stiffness(U.copy()))
        Kw = ref.tangent(U.reshape(n, 3))
        if not close(K, Kw, 1e-8):
            raise Violation("stiffness is not the assembly of the elements", got=K, want=Kw)
        o.step(2)
        o.state(case, k)
        o.outcomes.add(h64(np.round(ev["r"], 6).tolist()))
    o.trace()
    o.sample = dict(case=case)
    return o
