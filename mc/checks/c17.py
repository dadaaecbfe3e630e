"""C17: all assignments of {undefined, pattern} to the nodes for supports and for loads,
in every order of definition; plus every single contradiction inserted at every position."""
import itertools

import numpy as np

from mc.core import Outcome, Violation
from mc.structures import LIB
from mc.ref import Ref, close, define, prime

PROPERTY = "C17"
RULE = (
    "one case = node entry order x support assignment; its transitions are the load "
    "assignments and definition orders; each is built by the real code and read back "
    "through free components, locked components and the load seen by equilibrium(); "
    "contradictory definitions must make build() raise"
)
ASSUMPTIONS = ["at least one load is defined somewhere (zero loads at all are outside the documented use)"]
BOUND = {
    "quick": "4 nodes (labels 7,2,30,11), 24 entry orders x supports {undefined,3 patterns}^4 cyclic, x loads {undefined, 2 vectors}^4 minus none x order reversal x steps 1,2, also with up to two nodes without elements; 12 nodes x 6 entry orders x 48 support/load patterns; 12 and 40 nodes with some loads 1e-14 or 1e9 of the others; contradictions: unknown label / duplicate at every position for 6 labels",
    "thorough": "supports {undefined, 5 patterns}^4 x loads x all definition orders; 12 nodes x 24 entry orders x 192 patterns; 12 and 40 nodes with some loads 1e-14 or 1e9 of the others",
}
CHUNK = 4
LAB = [7, 2, 30, 11]
XYZ = [[0, 0, 0], [1.0, 0.2, 0], [0.1, 1.1, 0.2], [0.3, 0.2, 0.9]]
EL = [[1, [7, 2]], [2, [2, 30]], [3, [30, 11]], [4, [11, 7]], [5, [7, 30]]]
PB = [None, (0, 0, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 1)]
PF = [None, (0.5, -1.0, 2.0), (0.0, 0.25, -0.125)]


def cases(tier):
    nb = 4 if tier == "quick" else 6
    orders = list(itertools.permutations(range(4)))
    for i, bs in enumerate(itertools.product(range(nb), repeat=4)):
        yield ["ok", list(orders[i % 24]), list(bs), tier]
    # twelve nodes, labels of one and two digits
    for rot in range(6 if tier == "quick" else 24):
        for bm in range(8 if tier == "quick" else 32):
            yield ["big", [rot], [bm], tier]
    # 40 nodes; very small and very large loads
    for rot in range(3 if tier == "quick" else 9):
        for mag in (1.0, 1e-14, 1e9):
            yield ["big", [rot, "mast", mag], [2 * rot + 1], tier]
            yield ["big", [rot, "tower", mag], [2 * rot + 1], tier]
    for o in orders:
        yield ["bad", list(o), [1, 0, 2, 3], tier]


def base(order, bounds, forces, alone=()):
    "alone: nodes without any element"
    return dict(
        nodes=[[LAB[i], XYZ[i]] for i in order],
        elems=[[e[0], e[1], 1, [1.0], 1.0] for e in EL if not set(e[1]) & set(alone)],
        bounds=bounds,
        forces=forces,
    )


def run(case):
    import trusspy as tp

    kind, order, bs, tier = case
    o = Outcome()
    if kind == "bad":
        return bad(tp, order, bs, o)
    if kind == "big":
        return big(tp, *(order if len(order) == 3 else [order[0], "tower", 1.0]), bs[0], o)
    fps = [f for f in itertools.product(range(3), repeat=4) if any(f)]
    for k, fs in enumerate(fps):
        nst = 1 + k % 2
        bounds = [[LAB[i], list(PB[b])] for i, b in enumerate(bs) if PB[b] is not None]
        forces = []
        for i, f in enumerate(fs):
            if PF[f] is not None:
                v = [float(x) * (i + 1) for x in PF[f]]
                forces.append([LAB[i], v if nst == 1 else v + [-2.0 * x for x in v]])
        var = [(bounds, forces), (bounds[::-1], forces[::-1])]
        if tier == "thorough":
            var = list(itertools.product(itertools.permutations(bounds), itertools.permutations(forces)))
        else:
            var = var[k % 2 :][:1]
        for b, f in var:
            spec = base(order, list(b), list(f), [(), (11,), (), (7,), (2, 11)][k % 5])
            ref = Ref(spec)
            free = ref.DOF1
            M = define(tp, spec)
            for s in range(nst):
                M.Settings.nsteps = nst
                prime(M) if s == 0 else None
                An = M.Analysis
                if sorted(int(x) for x in An.DOF1) != free.tolist() or sorted(int(x) for x in An.DOF0) != ref.DOF0.tolist():
                    raise Violation("free/locked components are wrong", supports=b, got=[An.DOF1, An.DOF0], want=[free, ref.DOF0])
                if len(free):
                    n = len(free)
                    u = np.zeros(n)
                    g1 = np.array(M.equilibrium(np.append(u, 1.0), np.zeros(n + 1)))
                    w = ref.force(0).ravel()[free]
                    if not close(g1, w, 1e-12):
                        raise Violation("load on the free components is wrong", supports=b, loads=f, got=g1, want=w)
            # load table of every step and node after the build
            tab = {int(l): np.array(v, float) for l, v in zip(M.ExtForces.nodes, M.ExtForces.forces)}
            for l in ref.labels:
                if l not in tab or not close(tab[l], ref.F[l], 0):
                    raise Violation("load of a node is wrong after build", node=l, loads=f, got=tab.get(l), want=ref.F[l])
            if len(tab) != len(ref.labels) or len(M.ExtForces.nodes) != len(ref.labels):
                raise Violation("loads of unknown nodes after build", got=sorted(tab))
            o.step()
    o.trace()
    o.state(order, bs)
    o.outcomes.add(tuple(bs))
    o.sample = dict(case=case, builds=o.transitions)
    return o


def big(tp, rot, name, mag, bm, o):
    T = LIB[name]
    labs = [l for l, _ in T["nodes"]]
    n = len(labs)
    order = [((7 if n % 5 == 0 else 5) * i * (1 + rot % 2 * (4 if n == 12 else 2)) + rot) % n for i in range(n)]
    for k in range(6):
        bounds = [[l, list(PB[1 + (l * (k + 1) + bm) % 5])] for l in labs if (l * 7 + bm) % (k + 2)]
        forces = [[l, [(l * x + k) * (mag if l % 4 else 1.0) for x in PF[1 + l % 2]]] for l in labs if (l * 5 + bm + k) % 3]
        bounds = bounds[k:] + bounds[:k]
        forces = forces[::-1] if k % 2 else forces[bm % 5 :] + forces[: bm % 5]
        spec = dict(nodes=[T["nodes"][i] for i in order], elems=T["elems"], bounds=bounds, forces=forces)
        assert len({i for i in order}) == n
        ref = Ref(spec)
        free = ref.DOF1
        M = prime(define(tp, spec))
        if sorted(int(x) for x in M.Analysis.DOF1) != free.tolist() or sorted(int(x) for x in M.Analysis.DOF0) != ref.DOF0.tolist():
            raise Violation("free/locked components are wrong", supports=bounds, got=[M.Analysis.DOF1, M.Analysis.DOF0], want=[free, ref.DOF0])
        m = len(free)
        g = np.array(M.equilibrium(np.append(np.zeros(m), 1.0), np.zeros(m + 1)))
        if not close(g, ref.force(0).ravel()[free], 1e-12):
            raise Violation("load on the free components is wrong", supports=bounds, loads=forces, got=g, want=ref.force(0).ravel()[free])
        tab = {int(l): np.array(v, float) for l, v in zip(M.ExtForces.nodes, M.ExtForces.forces)}
        if sorted(tab) != sorted(labs) or not all(close(tab[l], ref.F[l], 0) for l in labs):
            raise Violation("load of a node is wrong after build", loads=forces, got=tab)
        o.step()
        o.state("big", rot, name, mag, bm, k)
    o.trace()
    o.outcomes.add(("big", bm))
    o.sample = dict(rot=rot, pattern=bm)
    return o


def bad(tp, order, bs, o):
    bounds = [[LAB[i], list(PB[b])] for i, b in enumerate(bs) if PB[b] is not None]
    forces = [[LAB[i], [1.0 + i, 0, 0.5]] for i in (3, 1, 0)]
    all_b = [[LAB[i], [1, i % 2, 1]] for i in range(4)]
    all_f = [[LAB[i], [1.0 + i, 0, 0.5]] for i in range(4)]
    for B, F in ((bounds, forces), (all_b, forces), (bounds, all_f), (all_b, all_f), (bounds[:1], forces[:1])):
        # the plain definition builds
        spec = base(order, B, F)
        define(tp, spec).build()
        for what, tab in (("support", B), ("load", F)):
            for lab in LAB + [1, 8, 31, 0, -2, 7000000]:
                known = lab in LAB
                defined = lab in [x[0] for x in tab]
                if known and not defined:
                    continue
                vals = ([0, 0, 1], [1, 1, 1]) if what == "support" else ([0.0, 0.0, 0.0], [2.0, 0, 0])
                for v in vals:
                    for pos in range(len(tab) + 1):
                        t = tab[:pos] + [[lab, v]] + tab[pos:]
                        spec = base(order, t if what == "support" else B, t if what == "load" else F)
                        M = tp.Model(log=0)
                        try:
                            define(tp, spec, M)
                            M.build()
                        except Exception:
                            pass
                        else:
                            raise Violation("contradictory %s is accepted" % what, node=lab, position=pos, table=t, known=known)
                        o.step()
                        o.trace()
                        o.state(what, lab, v, pos, len(tab), order)
    o.outcomes.add("refused")
    return o
