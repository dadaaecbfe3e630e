"""Independent reference semantics of trusspy models (documented equations only).

A *spec* is a plain description of a model:

  nodes  : [[label, [x, y, z]], ...]            in order of entry
  elems  : [[label, [a, b], mtype, [E, K, Sy], A], ...]   A: area or [area, more]
  bounds : [[label, [f, f, f]], ...]            1 free, 0 locked
  forces : [[label, [fx, fy, fz, (next step) ...]], ...]
  set    : {setting: value}
"""

import copy

import numpy as np


# ---------------------------------------------------------------- building
def tup(v):
    return tuple(tup(x) if isinstance(x, (list, tuple)) else x for x in v)


def define(tp, spec, M=None, log=0, **kw):
    "define (not build) a model of the real code from a spec"
    M = tp.Model(log=log, **kw) if M is None else M
    for lab, X in spec["nodes"]:
        M.Nodes.add_node(lab, coord=tuple(X))
    ncol = max(len(e[3]) for e in spec["elems"])
    for lab, conn, mtype, mprop, A in spec["elems"]:
        mp = [float(v) for v in mprop] + [0.0] * (ncol - len(mprop))
        M.Elements.add_element(
            lab, list(conn), mat_type=mtype, mprop=mp, gprop=[float(v) for v in A] if isinstance(A, (list, tuple)) else [float(A)]
        )
    for lab, v in spec["bounds"]:
        M.Boundaries.add_bound_U(lab, tuple(v))
    for lab, f in spec["forces"]:
        M.ExtForces.add_force(lab, tuple(f))
    apply_settings(M, spec.get("set", {}))
    return M


def apply_settings(M, s):
    for k, v in s.items():
        if isinstance(v, (list, tuple)):
            v = tup(v)
        setattr(M.Settings, k, v)


def prime(M):
    """build, and run without any increment: leaves the model ready for direct
    evaluation of Model.equilibrium / Model.stiffness at states of our choice"""
    incs, ns = M.Settings.incs, M.Settings.nsteps
    M.build()
    M.Settings.incs, M.Settings.nsteps = 0, 1
    try:
        M.run()
    finally:
        M.Settings.incs, M.Settings.nsteps = incs, ns
    return M


# ---------------------------------------------------------------- material
def material(mtype, mprop, e, state):
    """(stress, tangent, new state, margin); state = (yield stress, plastic strain)
    margin: distance of the trial stress from the yield limit"""
    E = float(mprop[0])
    if mtype == 1:
        return E * e, E, state, np.inf
    K, Sy = float(mprop[1]), float(mprop[2])
    y, ep = state if state[0] != 0 else (Sy, state[1])
    trial = E * (e - ep)
    over = abs(trial) - y
    if over <= 0:
        return trial, E, (y, ep), -over
    dg = over / (E + K)
    sg = 1.0 if trial > 0 else -1.0
    return (
        trial - E * dg * sg,
        E * K / (E + K),
        (y + K * dg, ep + dg * sg),
        over,
    )


def area(A):
    "the area is the first of the geometric properties"
    return A[0] if isinstance(A, (list, tuple)) else A


# ---------------------------------------------------------------- structure
class Ref:
    def __init__(self, spec):
        self.spec = spec
        self.X = {lab: np.array(X, float) for lab, X in spec["nodes"]}
        self.labels = sorted(self.X)
        self.pos = {lab: i for i, lab in enumerate(self.labels)}
        self.nn = len(self.labels)
        self.free = {lab: np.array([1, 1, 1]) for lab in self.labels}
        for lab, v in spec["bounds"]:
            self.free[lab] = np.array(v)
        self.freeflat = np.concatenate([self.free[l] for l in self.labels])
        self.DOF1 = np.flatnonzero(self.freeflat == 1)
        self.DOF0 = np.flatnonzero(self.freeflat == 0)
        self.ncol = max([len(f) for _, f in spec["forces"]] + [3])
        self.F = {lab: np.zeros(self.ncol) for lab in self.labels}
        for lab, f in spec["forces"]:
            self.F[lab] = np.array(f, float)
        self.elems = spec["elems"]

    def force(self, step):
        "(nn,3) load vector of step 0,1,..."
        return np.array([self.F[l][3 * step : 3 * step + 3] for l in self.labels])

    def state0(self):
        return [(0.0, 0.0) for _ in self.elems]

    def eval(self, U, states=None):
        """U: (nn,3).  Returns dict with r (nn,3), and per element stretch,
        stress, force, new state, margin"""
        states = states or self.state0()
        r = np.zeros((self.nn, 3))
        lam, stress, force, new, margin = [], [], [], [], []
        for (lab, (a, b), mt, mp, A), st in zip(self.elems, states):
            ia, ib = self.pos[a], self.pos[b]
            d0 = self.X[b] - self.X[a]
            d = d0 + U[ib] - U[ia]
            L, l = np.sqrt((d0**2).sum()), np.sqrt((d**2).sum())
            s, t, ns, mg = material(mt, mp, l / L - 1.0, st)
            N = s * area(A)
            r[ia] -= N * d / l
            r[ib] += N * d / l
            lam.append(l / L)
            stress.append(s)
            force.append(N)
            new.append(ns)
            margin.append(mg)
        return dict(
            r=r,
            stretch=np.array(lam),
            stress=np.array(stress),
            force=np.array(force),
            state=new,
            margin=np.array(margin),
        )

    def tangent(self, U, states=None):
        "full (3nn,3nn) tangent stiffness"
        states = states or self.state0()
        K = np.zeros((3 * self.nn, 3 * self.nn))
        for (lab, (a, b), mt, mp, A), st in zip(self.elems, states):
            ia, ib = self.pos[a], self.pos[b]
            d0 = self.X[b] - self.X[a]
            d = d0 + U[ib] - U[ia]
            L, l = np.sqrt((d0**2).sum()), np.sqrt((d**2).sum())
            A = area(A)
            s, t, _, _ = material(mt, mp, l / L - 1.0, st)
            nn_ = np.outer(d, d) / l**2
            k = t * A / L * nn_ + s * A / l * (np.eye(3) - nn_)
            sa, sb = slice(3 * ia, 3 * ia + 3), slice(3 * ib, 3 * ib + 3)
            K[sa, sa] += k
            K[sb, sb] += k
            K[sa, sb] -= k
            K[sb, sa] -= k
        return K

    def expand(self, Ured):
        U = np.zeros(3 * self.nn)
        U[self.DOF1] = Ured
        return U.reshape(self.nn, 3)


def clone(spec, **changes):
    s = copy.deepcopy(spec)
    for k, v in changes.items():
        if k == "set":
            s.setdefault("set", {}).update(v)
        else:
            s[k] = v
    return s


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b))))


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return float("inf")
    return float(np.max(np.abs(a - b))) if a.size else 0.0
