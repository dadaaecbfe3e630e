"""C03 consistent tangent: for every support pattern, lattice displacement state and
reachable (elastic / yielding) material state, stiffness() equals the central
difference of the code's own internal forces, equals the closed form, is symmetric,
and has rigid translations in its null space when nothing is supported."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import Ref, close, define, prime
from mc.structures import LIB

PROPERTY = "C03"
RULE = (
    "one case = structure x support pattern x material assignment; its transitions are "
    "the evaluations at every displacement state of the lattice, before and after every "
    "committed load history of the bound; states are (structure, supports, history, "
    "displacement)"
)
ASSUMPTIONS = [
    "states closer than 1e-4 to a yield limit are left out (the response has a kink there)",
    "finite differences with step 1e-6, agreement 1e-4 relative; closed form to 1e-8",
]
BOUND = {
    "quick": "3 structures (1-4 elements, 2-4 nodes) and a tower (26 elements, 12 nodes, 6 support patterns), all support patterns of the 3-node structure (512) and 64 of the others, 4 material mixes, 4 displacement states, 2 rigid rotations and 3 scalings by .25 to 40, histories of length <=1 (plastic)",
    "thorough": "same structures, all support patterns (tower: 6), 4 material mixes, 9 displacement states, 4 rigid rotations and 3 scalings by .25 to 40, histories of length <=2",
}
CHUNK = 8

STRUCT = {
    "tri": dict(
        nodes=[[1, [0, 0, 0]], [2, [1.2, 0.1, -0.3]], [3, [0.4, 1.0, 0.8]]],
        elems=[[1, [1, 2], 1.0], [2, [3, 2], 0.5], [3, [1, 3], 2.0]],
    ),
    "bar": dict(
        nodes=[[1, [0.3, 0, 0.1]], [2, [1.2, -0.9, 0.7]]],
        elems=[[1, [2, 1], 1.3]],
    ),
    "pod": dict(
        nodes=[[2, [-1, 0.2, 0]], [5, [0.9, -0.4, 0.1]], [7, [0.1, 1.1, 0.2]], [9, [0.2, 0.1, 1.0]]],
        elems=[[4, [2, 9], 1.0], [1, [9, 5], 0.7], [3, [7, 9], 1.6], [2, [9, 5], 0.4]],
    ),
}
STRUCT["tower"] = dict(
    nodes=LIB["tower"]["nodes"], elems=[[l, n, A] for l, n, _, _, A in LIB["tower"]["elems"]]
)
EL = (1, [1.5])
MATS = [
    [EL],
    [(2, [2.0, 0.5, 0.08])],
    [EL, (2, [2.0, 0.5, 0.08]), (2, [1.0, 0.0, 0.05])],
    # steel in N and mm; more parameters than the elastic material uses
    [(1, [2.1e5, 3.0, 7.0]), (2, [2.1e5, 2.1e3, 235.0])],
]


def disp(nn, k):
    "k-th displacement state: deterministic, generic, covers stretch and compression"
    a = np.arange(3 * nn).reshape(nn, 3)
    amp = [0.0, 0.12, -0.12, 0.35, -0.2, 0.05, 0.6, -0.04, 0.25][k]
    return amp * np.cos(1.7 * a * (1 + k % 4) + k)


ROT = [
    np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]),
    np.array([[0.0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]),
    np.array([[1.0, 0, 0], [0, -1, 0], [0, 0, -1]]),
]


LONG = [5.0, 0.25, 40.0]


def state(X, k):
    "displacement state k; 20.. are rigid rotations about the first node"
    if k >= 30:
        # long and short: the whole structure scaled about its first node, and skewed
        return (X - X[0]) * (LONG[k - 30] - 1.0) + disp(len(X), 2) * (0.3 if LONG[k - 30] < 1 else LONG[k - 30])
    if k < 20:
        return disp(len(X), k)
    return (X - X[0]) @ (ROT[k - 20].T - np.eye(3))


def cases(tier):
    for name, s in STRUCT.items():
        n = 3 * len(s["nodes"])
        pats = range(2**n)
        if name == "tower":
            # base locked, everything free, and a few mixed patterns
            pats = [(1 << n) - (1 << 12), (1 << n) - 1, int("011101" * 6, 2), int("110" * 12, 2), 1 << 30, 7 << 24]
        if name == "pod":
            pats = [p for p in range(2**n) if tier == "thorough" or p % 61 == 0 or p == 2**n - 1]
        for mats in range(len(MATS)):
            for p in pats:
                if p == 0:
                    continue
                if tier == "quick" and name == "tri" and mats == 2 and p % 2 == 0:
                    continue
                if mats == 3 and name == "tri" and p % (8 if tier == "quick" else 2) != 7 % (8 if tier == "quick" else 2):
                    continue
                yield [tier, name, mats, p]


def run(case):
    import trusspy as tp

    tier, name, mats, p = case
    s = STRUCT[name]
    nn = len(s["nodes"])
    labels = [n[0] for n in s["nodes"]]
    bits = [(p >> i) & 1 for i in range(3 * nn)]
    M_ = MATS[mats]
    elems = [
        [e[0], e[1], M_[i % len(M_)][0], M_[i % len(M_)][1], e[2]]
        for i, e in enumerate(s["elems"])
    ]
    spec = dict(
        nodes=s["nodes"],
        elems=elems,
        bounds=[[l, bits[3 * i : 3 * i + 3]] for i, l in enumerate(labels)],
        forces=[[labels[-1], [0.3, -0.2, 1.0]]],
    )
    ref = Ref(spec)
    o = Outcome()
    free = ref.DOF1
    nk = 4 if tier == "quick" else 9
    plastic = any(e[2] == 2 for e in elems)
    hists = [()]
    if plastic:
        hists += [(1,), (3,)]
        if tier == "thorough":
            hists += [(2,), (1, 3), (3, 2), (3, 0), (2, 3)]
    for hist in hists:
        M = prime(define(tp, spec))
        states = ref.state0()
        V0 = np.zeros(len(free) + 1)
        for k in hist:
            Uk = disp(nn, k).ravel()[free]
            M.equilibrium(np.append(Uk, 0.0), V0, statev_write=True)
            states = ref.eval(ref.expand(Uk), states)["state"]
        X = np.array([n[1] for n in s["nodes"]], float)
        for k in list(range(nk)) + list(range(20, 22 if tier == "quick" else 24)) + [30, 31, 32]:
            if k >= 30 and tier == "quick" and hist and name != "bar":
                continue
            Ur = state(X, k).ravel()[free]
            U = ref.expand(Ur)
            ev = ref.eval(U, states)
            if plastic and np.min(np.abs(ev["margin"])) < 1e-4:
                continue
            K = np.array(M.stiffness(Ur.copy()))
            Kw = ref.tangent(U, states)[np.ix_(free, free)]
            sc = 1 + np.abs(Kw).max()
            if K.shape != Kw.shape or not np.all(np.abs(K - Kw) <= 1e-8 * sc):
                raise Violation("stiffness differs from the closed form", hist=hist, U=U, got=K, want=Kw)
            if not np.all(np.abs(K - K.T) <= 1e-9 * sc):
                raise Violation("stiffness is not symmetric", hist=hist, U=U, got=K)
            M.equilibrium(np.append(Ur, 0.0), V0)
            if not close(M.Analysis.r, ev["r"], 1e-9):
                raise Violation("internal forces differ from the closed form", hist=hist, U=U, got=M.Analysis.r, want=ev["r"])
            h = 1e-6
            D = np.zeros_like(Kw)
            for c in range(len(free)):
                up, um = Ur.copy(), Ur.copy()
                up[c] += h
                um[c] -= h
                M.equilibrium(np.append(up, 0.0), V0)
                rp = np.ravel(M.Analysis.r).copy()
                M.equilibrium(np.append(um, 0.0), V0)
                rm = np.ravel(M.Analysis.r).copy()
                D[:, c] = ((rp - rm) / (2 * h))[free]
            if not np.all(np.abs(K - D) <= 1e-4 * sc):
                raise Violation("stiffness is not the derivative of the internal forces", hist=hist, U=U, got=K, want=D)
            if len(free) == 3 * nn:
                T = np.tile(np.eye(3), (nn, 1))
                if not np.all(np.abs(K @ T) <= 1e-8 * sc):
                    raise Violation("rigid translation produces force", U=U)
            o.step()
            o.state(case[1:], hist, k)
            o.outcomes.add(h64(np.round(Kw, 6).tolist()))
    o.trace(len(hists))
    o.sample = dict(case=case, free=free.tolist(), histories=[list(h) for h in hists])
    return o
