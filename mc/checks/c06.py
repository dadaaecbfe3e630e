"""C06: all strain sequences over a strain lattice (with values exactly on the yield
limit), on the material function itself and on bars inside a built model, judged by the
defining conditions of isotropic-hardening plasticity."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import define, prime

PROPERTY = "C06"
RULE = (
    "explicit-state search over strain sequences: a state is (parameters, rounded yield "
    "stress, plastic strain, strain), a transition one material update; every sequence of "
    "the depth is executed (shared prefixes once)"
)
ASSUMPTIONS = ["agreement 1e-10; parameters E > 0, hardening modulus >= 0, yield stress >= 0"]
BOUND = {
    "quick": "function: 10 parameter sets, all sequences of length <= 5 over 7 strains, 14 sets and length <= 4 over 11 strains 1e-6 to 340 yield strains apart; model: 6 parameter sets, all sequences of length <= 3 over 5 strains, with uncommitted evaluations in between",
    "thorough": "function: 14 parameter sets, length <= 6 over 9 strains, length <= 5 over 11 strains 1e-6 to 340 yield strains apart (and the same with 7 strains to length 7 for 2 sets); model: 13 parameter sets, length <= 4",
}
CHUNK = 4
PAR = [
    [1.0, 0.1, 0.1],
    [1.0, 0.0, 0.1],
    [2.0, 2.0, 0.3],
    [100.0, 80.0, 1.0],
    [0.5, 3.0, 0.02],
    [210.0, 2.1, 0.0],
    [1.0, 0.05, 10.0],
    [1.0, 1.0, 0.25],
    [7.0, 0.7, 0.7],
    [3.0, 0.0, 0.15],
    [1e5, 1e4, 200.0],
    [0.01, 0.002, 0.001],
    [1.0, 10.0, 0.1],
    [4.0, 0.5, 1.0],
]
# parameter sets whose strain lattice stays above -0.9: a bar can not be shorter than zero
MOD = [i for i, p in enumerate(PAR) if p[2] / p[0] < 0.3]
UNIT = [0.0, 1.0, -1.0, 2.5, -2.5, 1.2, -0.4, 6.0, -0.7]

# strain steps from a millionth to hundreds of yield strains (n = 0 selects this one)
FINE = [1.0 + 1e-6, 1.0 + 4e-6, 1.001, 2.0, 2.0 + 1e-5, -1.0 - 3e-6, -0.2, 40.0, 40.0 - 1e-5, -300.0, 0.9999]


def strains(p, n):
    "lattice in units of the initial yield strain (1 -> exactly on the limit)"
    y = p[2] / p[0] if p[2] > 0 else 0.01
    return [u * y for u in (UNIT[:n] if n else FINE)]


def cases(tier):
    q = tier == "quick"
    for ip in range(10 if q else 14):
        ns, depth = (7, 5) if q else (9, 6)
        for a in range(ns):
            if q:
                yield ["fun", ip, ns, depth, [a]]
            else:
                for b in range(ns):
                    yield ["fun", ip, ns, depth, [a, b]]
    for ip in range(14):
        for a in range(len(FINE)):
            for b in range(len(FINE)):
                yield ["fun", ip, 0, 4 if q else 5, [a, b]]
    if not q:
        for ip in (0, 3):
            for a, b, c in itertools.product(range(7), repeat=3):
                yield ["fun", ip, 7, 7, [a, b, c]]
    for ip in range(6 if q else len(MOD)):
        for a in range(5):
            yield ["mod", ip, 5, 3 if q else 4, [a]]


def judge(p, e, y0, ep0, s, y1, ep1, acc, **tag):
    E, K, Sy = p
    sc = 1e-10 * (abs(E * e) + abs(E * ep1) + y1 + 1e-12)
    if not abs(s - E * (e - ep1)) <= sc:
        raise Violation("stress is not E (strain - plastic strain)", stress=s, strain=e, plastic=ep1, **tag)
    if not abs(s) <= y1 + sc:
        raise Violation("stress exceeds the yield stress", stress=s, yield_stress=y1, **tag)
    if not y1 >= y0 - sc:
        raise Violation("yield stress decreases", yield_before=y0, yield_after=y1, **tag)
    dp = ep1 - ep0
    acc = acc + abs(dp)
    if not abs(y1 - (Sy + K * acc)) <= sc + 1e-10 * K * acc:
        raise Violation("yield stress is not initial + K * accumulated plastic strain", got=y1, want=Sy + K * acc, **tag)
    if abs(dp) * E > sc:
        if not abs(abs(s) - y1) <= 10 * sc:
            raise Violation("plastic flow although the stress is inside the yield limit", stress=s, yield_stress=y1, **tag)
        if dp * s < 0:
            raise Violation("plastic flow against the stress", dp=dp, stress=s, **tag)
        if abs(E * (e - ep0)) <= y0 - sc:
            raise Violation("plastic flow inside the elastic range", strain=e, **tag)
    return acc


def run(case):
    return fun(case) if case[0] == "fun" else mod(case)


def fun(case):
    from trusspy.materials import umat_elplast_iso

    _, ip, ns, depth, pre = case
    p = PAR[ip]
    E = strains(p, ns)
    o = Outcome()
    prop = np.array(p)

    def step(st, k):
        e0, y0, ep0, acc, first = st
        e = E[k]
        sv = np.array([0.0 if first else y0, ep0])
        s, t, _, sv1 = umat_elplast_iso(e, e - e0, prop, sv)
        y1, ep1 = float(sv1[0]), float(sv1[1])
        acc = judge(p, e, y0, ep0, float(s), y1, ep1, acc, parameters=p, previous=dict(strain=e0, y=y0, ep=ep0))
        if not np.array_equal(prop, np.array(p)):
            raise Violation("the material changes its parameters")
        # inside the elastic range the response is E
        if abs(p[0] * (e - ep0)) < y0 * (1 - 1e-9) and abs(t - p[0]) > 1e-9 * p[0]:
            raise Violation("tangent inside the elastic range is not E", got=t)
        o.step()
        o.states.add(h64(ip, round(y1 / (p[2] + 1e-9), 8), round(ep1 / (E[1] + 1e-12), 8), k))
        return (e, y1, ep1, acc, False)

    st = (0.0, p[2], 0.0, 0.0, True)
    for k in pre:
        st = step(st, k)
    stack = [(st, len(pre))]
    while stack:
        st, d = stack.pop()
        if d == depth:
            o.trace()
            o.outcomes.add((ip, round(st[3] / (E[1] + 1e-12), 3)))
            continue
        for k in range(len(E)):
            stack.append((step(st, k), d + 1))
    o.sample = dict(case=case)
    return o


def mod(case):
    import copy

    import trusspy as tp

    _, ip, ns, depth, pre = case
    p = PAR[MOD[ip]]
    E = strains(p, ns)
    p2 = PAR[MOD[(ip + 1) % len(MOD)]]
    o = Outcome()
    # two bars of different parameters in a row, strains prescribed directly
    spec = dict(
        nodes=[[1, [0, 0, 0]], [2, [0, 2.0, 0]], [3, [0, 5.0, 0]]],
        elems=[[7, [1, 2], 2, p, 2.0], [3, [3, 2], 2, p2, 0.5]],
        bounds=[[1, [0, 0, 0]], [2, [0, 1, 0]], [3, [0, 1, 0]]],
        forces=[[3, [0, 1.0, 0]]],
    )
    M = prime(define(tp, spec))

    def step(st, k):
        (an, e0s, ys, eps, accs) = st
        M.Analysis = copy.deepcopy(an)
        E2 = strains(p2, ns)
        es = (E[k], E2[(k + 2) % ns])
        u2 = 2.0 * es[0]
        u3 = u2 + 3.0 * es[1]
        V0 = np.zeros(3)
        # an evaluation that is not committed comes first
        M.equilibrium(np.array([u2 + 0.1, u3 - 0.2, 0.0]), V0)
        M.equilibrium(np.array([u2, u3, 0.0]), V0, statev_write=True)
        A = M.Analysis
        out = ([], [], [])
        for i, q in enumerate((p, p2)):
            s = float(np.ravel(A.element_stress)[i])
            y1, ep1 = (float(v) for v in A.state_v[i])
            acc = judge(q, es[i], ys[i], eps[i], s, y1, ep1, accs[i], element=i, parameters=q)
            for l, v in zip(out, (y1, ep1, acc)):
                l.append(v)
        o.step()
        o.states.add(h64("m", ip, np.round(out[0], 8).tolist(), np.round(out[1], 8).tolist(), k))
        return (copy.deepcopy(A), es, *out)

    st = (M.Analysis, (0.0, 0.0), [p[2], p2[2]], [0.0, 0.0], [0.0, 0.0])
    for k in pre:
        st = step(st, k)
    stack = [(st, len(pre))]
    while stack:
        st, d = stack.pop()
        if d == depth:
            o.trace()
            continue
        for k in range(ns):
            stack.append((step(st, k), d + 1))
    o.outcomes.add(("mod", ip))
    o.sample = dict(case=case)
    return o
