"""C10: complete path tracing runs over a grid of structures with known equilibrium
paths (closed form, or traced independently by a fine arc-length continuation of the
reference mechanics) x step settings; every stored increment must lie on the path, ahead
of the one before, within the step limit."""
import functools
import itertools

import numpy as np

from mc.core import Outcome, Violation
from mc.ref import Ref
from mc.runs import execute, records, settings
from mc.structures import S

PROPERTY = "C10"
RULE = (
    "one case = structure x load direction x step settings, run completely; a transition "
    "is one stored increment located on the exact path; states are (structure, settings, "
    "path position)"
)
ASSUMPTIONS = [
    "smooth path: the documented method is first order, so a general run is compared "
    "as long as the largest possible next step is below 0.6 of the radius of curvature "
    "of the path measured in steps; the step limits of the closed-form structures are "
    "below half of it everywhere",
    "without adaptive step control a run may end with an error at a limit point (no "
    "solution at the full load step); with it the run has to pass",
    "general structures: reference path as a polyline with a quarter of the step length",
]
BOUND = {
    "quick": "3 heights x {no spring, 4 spring stiffnesses} (load and displacement limit points) x 2 directions x {2 du} x 3 dlpf x 2 dxtol x stepcontrol; 5 general structures x 3 step sizes x 3 ratios du:dlpf x 6 settings",
    "thorough": "5 heights x {no spring, 6 stiffnesses} x 2 directions x 3 du x 4 dlpf x 3 dxtol x stepcontrol x 2 nfev x j_pre; 5 general structures x 8 step sizes x 7 ratios du:dlpf x 16 settings",
}
CHUNK = 2


def cases(tier):
    q = tier == "quick"
    hs = [0.3, 0.5, 0.8] if q else [0.2, 0.3, 0.5, 0.65, 0.8]
    kss = [None, 0.3, 0.1, 0.05, 0.03] if q else [None, 1.0, 0.3, 0.15, 0.1, 0.05, 0.03]
    for name in ("vm2", "tripod", "frame", "nta", "vm1"):
        for c, (cu, cl), sc, dxtol, nfev, mf in itertools.product(
            [0.5, 1.4, 2.0] if q else [0.25, 0.5, 0.75, 1.0, 1.4, 1.6, 2.0, 2.4],
            [(1, 1), (1, 3), (3, 1)] if q else [(1, 1), (1, 2), (1, 3), (1, 8), (2, 1), (3, 1), (8, 1)],
            [False, True],
            [1.000001, 1.25],
            [8] if q else [8, 6],
            [1.5, 4.0] if q else [1.5, 4.0, 10.0],
        ):
            if sc or mf == 1.5:
                yield ["gen", name, c, sc, dxtol, nfev, cu, cl, mf, 40 if c < 0.5 else 24]
    for h, ks in itertools.product(hs, kss):
        if ks is None or ks >= 0.3:
            dus = [0.06, 0.03] if q else [0.06, 0.03, 0.02]
        elif ks >= 0.1:
            dus = [0.03, 0.02] if q else [0.03, 0.02, 0.015]
        else:
            dus = [0.01] if ks > 0.04 else [0.006]
            if not q:
                dus.append(dus[0] * 0.7)
        for du, dl, dxtol, sc, dr in itertools.product(
            dus, [0.001, 0.005, 0.02] if q else [0.001, 0.003, 0.005, 0.02], [1.000001, 1.25] if q else [1.000001, 1.1, 1.25], [False, True], [1, -1]
        ):
            if h <= 0.3 and du > 0.03:
                continue
            if dr == -1 and (sc or dxtol > 1.2) and q:
                continue
            for nfev in [8] if q else [8, 6]:
                yield ["arch", h, ks, du, dl, dxtol, sc, dr, nfev]


def run(case):
    return arch(case) if case[0] == "arch" else general(case)


def arch(case):
    import trusspy as tp

    _, h, ks, du, dl, dxtol, sc, dr, nfev = case
    nodes = [[1, [0, 0, 0]], [2, [1.0, 0, h]]]
    elems = [[1, [1, 2], 1, [1.0], 1.0]]
    bounds = [[1, [0, 0, 0]], [2, [0, 0, 1]]]
    if ks is not None:
        nodes.append([3, [1.0, 0, h + 2.0]])
        elems.append([2, [2, 3], 1, [ks * 2.0], 1.0])
        bounds.append([3, [0, 0, 1]])
    top = len(nodes)
    spec = dict(nodes=nodes, elems=elems, bounds=bounds, forces=[[top, [0, 0, -1.0 * dr]]])
    spec["set"] = dict(du=du, dlpf=dl, dxtol=dxtol, stepcontrol=sc, maxfac=1.7, nfev=nfev)
    end = 2.3 * h
    spec["set"].update(incs=150, xlimit=(1, end if dr == 1 else 0.3 * h))
    M, _ = execute(tp, spec)
    recs = records(M)
    o = Outcome()
    L = np.hypot(1.0, h)
    w_prev, top_ = 0.0, False
    maxl = 0.0
    for i in range(1, len(recs)):
        R = recs[i]
        w = -R["U"][1, 2] * dr  # advance of the inner node along the load
        ww = -R["U"][1, 2]
        l = np.hypot(1.0, h - ww)
        lam = -(l / L - 1.0) * (h - ww) / l * dr
        if abs(R["lpf"] - lam) > 1e-7 * (1 + abs(lam)):
            raise Violation("stored increment is not on the path", increment=i, w=w, got=R["lpf"], want=lam)
        if ks is not None:
            w3 = -R["U"][2, 2]
            if abs(w3 - (ww + lam * dr / ks)) > 1e-6 * (1 + 1 / ks):
                raise Violation("stored increment is not on the path (spring)", increment=i, got=w3, want=ww + lam * dr / ks)
        if not w > w_prev:
            raise Violation("the path is traced backwards", increment=i, before=w_prev, after=w)
        fac = 1.7 * 1.5 if sc else 1.0
        if w - w_prev > du * fac * dxtol * 1.0001:
            raise Violation("jump along the path", increment=i, before=w_prev, after=w)
        if lam < maxl - 1e-9:
            top_ = True
        maxl = max(maxl, lam)
        w_prev = w
        o.step()
        o.state(case[1:], round(w, 9))
    if len(recs) < 3:
        raise Violation("path tracing stops at once", stored=len(recs) - 1)
    if sc and len(recs) < 151 and w_prev <= (end if dr == 1 else 0.3 * h):
        raise Violation("path tracing stops on the way", stored=len(recs) - 1, w=w_prev, end=end)
    o.trace()
    o.outcomes.add(("limit" if top_ else "stable", ks is not None, w_prev > h))
    o.sample = dict(case=case, increments=len(recs) - 1, passed_limit_point=top_)
    return o


@functools.lru_cache(None)
def path(name, cu, cl, ds, n):
    """fine polyline of the reference path: points (u, lam) scaled by (du, dlpf);
    arc-length continuation with a bordered Newton corrector"""
    spec = S(name)
    ref = Ref(spec)
    free = ref.DOF1
    st = settings(spec)
    sc = np.append(np.full(len(free), st["du"] * cu), st["dlpf"] * cl)
    F = ref.force(0).ravel()[free]
    m = len(free)

    def sys(y):
        x = y * sc
        U = ref.expand(x[:m])
        g = ref.eval(U)["r"].ravel()[free] - x[m] * F
        K = ref.tangent(U)[np.ix_(free, free)]
        J = np.hstack((K, -F[:, None])) * sc
        return g, J

    y = np.zeros(m + 1)
    t = None
    pts, tang = [y], []
    for k in range(n):
        g, J = sys(y)
        b = np.zeros(m + 1)
        b[m] = 1.0
        A = np.vstack((J, t if t is not None else b))
        tn = np.linalg.solve(A, b)
        tn /= np.linalg.norm(tn)
        if t is not None and tn @ t < 0:
            tn = -tn
        t = tn
        yn = y + ds * t
        for _ in range(30):
            g, J = sys(yn)
            A = np.vstack((J, t))
            d = np.linalg.solve(A, -np.append(g, t @ (yn - y) - ds))
            yn = yn + d
            if np.linalg.norm(d) < 1e-12:
                break
        y = yn
        pts.append(y)
        tang.append(t)
    T = np.array(tang)
    turn = np.linalg.norm(np.diff(T, axis=0), axis=1) / ds  # curvature
    return np.array(pts), sc, turn


# the run is compared as long as (curvature x largest possible step) stays below
SHARP = 0.6


def general(case):
    import trusspy as tp

    _, name, c, sc, dxtol, nfev, cu, cl, maxfac, n = case
    spec = S(name)
    st = settings(spec)
    spec["set"].update(
        incs=n, stepcontrol=sc, maxfac=maxfac, dxtol=dxtol, nfev=nfev, du=st["du"] * c * cu, dlpf=st["dlpf"] * c * cl
    )
    M, _ = execute(tp, spec)
    recs = records(M)
    o = Outcome()
    ds = 0.125
    # a step of max-norm 1 has euclidean length at most sqrt(m + 1)
    m = len(Ref(spec).DOF1)
    step = c * dxtol * (maxfac * 1.5 if sc else 1.0)
    length = n * step * np.sqrt(m + 1)
    P, scale, turn = path(name, cu, cl, ds, int(min(length, 140) / ds) + 10)
    ahead = step * np.sqrt(m + 1)
    last = c / 1.5
    pos = 0.0
    ended = False
    yp = np.zeros(m + 1)
    for i in range(1, len(recs)):
        y = recs[i]["Vred"] / scale
        # largest next step: grown from the one before, and its neighbourhood of the path
        nxt = min(step, 1.5 * last * dxtol) if sc else step
        k0, k1 = int(pos / ds), int((pos + nxt * np.sqrt(m + 1)) / ds) + 1
        if k1 >= len(P) - 2 or turn[k0:k1].max() * nxt > SHARP:
            ended = True
            break
        # nearest point of the polyline around the last position
        a, b = P[:-1], P[1:]
        d = b - a
        s = np.clip(((y - a) * d).sum(1) / (d * d).sum(1), 0, 1)
        dist = np.sqrt(((a + s[:, None] * d - y) ** 2).sum(1))
        # the path may come close to itself: look around the last position first
        w = int(2 * (nxt * np.sqrt(m + 1) + 1) / ds)
        lo = max(0, k0 - w)
        k = lo + int(np.argmin(dist[lo : k0 + w]))
        if dist[k] > 0.02:
            k = int(np.argmin(dist))
        p = (k + s[k]) * ds
        if p > (len(P) - 2) * ds:
            break
        if dist[k] > 0.02:
            raise Violation("stored increment is not on the path", increment=i, distance=dist[k])
        if not p > pos + 1e-3 * c:
            raise Violation("the path is traced backwards", increment=i, before=pos, after=p)
        lim = ahead * 1.1
        if p - pos > lim:
            raise Violation("jump along the path", increment=i, before=pos, after=p, limit=lim)
        last = np.abs(y - yp).max()
        yp = y
        pos = p
        o.step()
        o.state(case[1:], round(p, 5))
    if sc and len(recs) - 1 < n and not ended:
        raise Violation("path tracing stops on the way", stored=len(recs) - 1, want=n)
    o.trace()
    lam = [r["lpf"] for r in recs]
    o.outcomes.add((name, bool(np.any(np.diff(lam) < 0))))
    o.outcomes.add(("sharp", ended, pos > 0))
    o.sample = dict(case=case, increments=len(recs) - 1, path_length=pos)
    return o


def final(tier, agg):
    if ("limit", True, True) not in agg["outcomes"] or ("limit", False, True) not in agg["outcomes"]:
        return dict(fail="no enumerated run passes a limit point")
    return {}
