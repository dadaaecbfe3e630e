"""Scripted nonlinear environments for the path follower.

`EnvModel` is the real trusspy.Model with only the mechanical response replaced: the
free components have separable, piecewise linear responses given by the script (slope per
cell), and around the start of an increment a convergence radius (per cell): outside it
there is no solution at all, so the nonlinear iterations fail.  By enumerating all
scripts, every combination of {converges, converges with another governing component,
does not converge} can be put in front of the real step and control logic.
"""

import numpy as np


class Script:
    """n components; cells of width w; slopes[i][k], radius[k] (k: cell of component 0
    at the begin of the increment).  Beyond the last cell the script repeats."""

    def __init__(self, slopes, radius, w, f0, fc=None):
        self.slopes = [tuple(float(v) for v in s) for s in slopes]
        self.radius = tuple(float(r) for r in radius)
        self.w = float(w)
        self.f0 = np.array(f0, float)
        self.n = len(self.slopes)
        # load steps in which there is no solution at all (set by the check)
        self.block = ()
        self.step = 1
        self.cum = []
        for s in self.slopes:
            c = [0.0]
            for v in s:
                c.append(c[-1] + v * self.w)
            self.cum.append(c)

    def cell(self, i, u):
        q = int(np.floor(u / self.w))
        m = len(self.slopes[i])
        per, k = divmod(q, m)
        return per, k, u - q * self.w

    def rho(self, u):
        out = np.empty(self.n)
        for i in range(self.n):
            per, k, rest = self.cell(i, u[i])
            c = self.cum[i]
            out[i] = per * c[-1] + c[k] + self.slopes[i][k] * rest
        return out

    def slope(self, u):
        return np.array([self.slopes[i][self.cell(i, u[i])[1]] for i in range(self.n)])

    def inside(self, u, u0):
        if self.step in self.block:
            return False
        k = int(np.floor(u0[0] / self.w)) % len(self.radius)
        return bool(np.max(np.abs(np.asarray(u) - u0)) <= self.radius[k])

    def residual(self, u, u0, lpf, fc):
        "external minus internal force; outside the radius nowhere zero"
        g = fc + lpf * self.f0 - self.rho(u)
        if not self.inside(u, u0):
            g = 1.0 + np.abs(g)
        return g


def make_model_class(tp):
    class EnvModel(tp.Model):
        env = None
        calls = 0
        limit = None  # horizon on evaluations
        events = None

        def equilibrium(self, Ured, U0red, stage="G", analysis=None, statev_write=False):
            if analysis is not None:
                self.Analysis = analysis
            A = self.Analysis
            n = self.ndof1
            lpf = Ured[-1] if len(Ured) > n else A.lpf
            u, u0 = np.array(Ured[:n], float), np.array(U0red[:n], float)
            A.U.reshape(-1)[A.DOF1] = u
            A.U0.reshape(-1)[A.DOF1] = u0
            self.calls += 1
            if self.limit is not None and self.calls > self.limit:
                raise Endless()
            if self.events is not None:
                self.events.append((u, u0, float(lpf), bool(statev_write)))
            if not np.all(np.isfinite(u)):
                return np.full(n, 1e6)
            fc = A.ExtForces.forces_const.ravel()[A.DOF1]
            f0 = A.ExtForces.forces.ravel()[A.DOF1]
            self.env.f0 = f0
            self.env.step = int(A.step)
            g = self.env.residual(u, u0, lpf, fc)
            A.r.fill(0.0)
            A.r.reshape(-1)[A.DOF1] = fc + lpf * f0 - g
            return g

        def stiffness(self, Ured, analysis=None):
            if analysis is not None:
                self.Analysis = analysis
            u = np.array(Ured, float)
            if not np.all(np.isfinite(u)):
                return np.eye(self.ndof1)
            K = np.diag(self.env.slope(u))
            self.Analysis.Kred = K
            return K

    return EnvModel


class Endless(BaseException):
    pass


def env_spec(n, f0s, **st):
    "a two-node carrier model with n free components; f0s: load rows per step"
    free = [1] * n + [0] * (3 - n)
    row = []
    for f in f0s:
        row += list(f) + [0.0] * (3 - n)
    d = dict(nsteps=len(f0s))
    d.update(st)
    return dict(
        nodes=[[1, [0, 0, 0]], [2, [1, 0, 0]]],
        elems=[[1, [1, 2], 1, [1.0], 1.0]],
        bounds=[[1, [0, 0, 0]], [2, free]],
        forces=[[2, row]],
        set=d,
    )


# ------------------------------------------------------------------ reference follower
def ref_newton(env, fc, x, x0, jj, target, nfev, ftol, xtol):
    "Newton on the extended system; returns x, ok, n"
    n = env.n
    u0 = x0[:n]
    x = x.copy()

    def fun(x):
        return np.append(-env.residual(x[:n], u0, x[n], fc), x[jj] - target)

    ok, k = False, 0
    for k in range(1, nfev + 1):
        J = np.zeros((n + 1, n + 1))
        J[:n, :n] = np.diag(env.slope(x[:n]))
        J[:n, n] = -env.f0
        J[n, jj] = 1.0
        try:
            dx = np.linalg.solve(J, -fun(x))
        except np.linalg.LinAlgError:
            raise Skip()
        x = x + dx
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e9:
            raise Skip()
        if np.linalg.norm(fun(x)) < ftol and np.linalg.norm(dx) < xtol:
            ok = True
            break
    return x, ok, k


class Skip(Exception):
    "the script leads to a tie or a singular system: excluded from comparison"


def governing(D, dxm):
    q = np.abs(D / dxm)
    o = np.argsort(q)
    if q[o[-1]] - q[o[-2]] < 1e-7 * (1 + q[o[-1]]):
        raise Skip()
    k = o[-1]
    return int(k + 1) * (1 if D[k] > 0 else -1), q[k]


def follow(env, S, fc, u_start, incs, xlimit, edges=False):
    """reference path follower, written from the documentation.

    S: settings dict.  Returns (list of accepted (x, factor), reason, trace of attempts)"""
    n = env.n
    x = np.append(u_start, 0.0)
    base = np.append(np.full(n, float(S["du"])), float(S["dlpf"]))
    fac = 1.0
    fixed = S["j_fixed"]
    j = S["j0"] if S["j0"] is not None else n + 1
    pre = S["j_pre"] and not fixed
    quiet = 4  # increments since the last reduction
    ftol, xtol = 10.0 ** -S["ftol"], 10.0 ** -S["xtol"]
    out, log = [], []
    reason = "incs"
    for i in range(incs):
        x0 = x.copy()
        if edges and any(0 < abs(v) and abs(v / env.w - round(v / env.w)) < 1e-6 for v in x0[:n]):
            # on the edge of a cell: rounding decides what the script does
            raise Skip()
        used = 0
        z = 0
        D = None
        if pre:
            jj = abs(j) - 1
            t = x0[jj] + fac * base[jj] * np.sign(j)
            xp, _, _ = ref_newton(env, fc, x0, x0, jj, t, 1, ftol, xtol)
            D = xp - x0
            if np.max(np.abs(D)) < 1e-12:
                raise Skip()
            j, ratio = governing(D, fac * base)
            D = D / ratio
            used = 1
        while True:
            jj = abs(j) - 1
            jold = j
            t = x0[jj] + fac * base[jj] * np.sign(j)
            allowed = S["nfev"] - used
            xs = x0 + D if (z == 0 and pre) else x0
            xn, ok, it = ref_newton(env, fc, xs, x0, jj, t, allowed, ftol, xtol)
            dx = xn - x0
            q = np.abs(dx / (fac * base))
            if np.any(np.abs(q - S["dxtol"]) < 1e-7):
                raise Skip()
            if not fixed:
                if S["j_fixed"] is False:
                    j, _ = governing(dx, fac * base)
                valid = bool(np.all(q <= S["dxtol"]))
            else:
                valid = bool(q[jj] <= S["dxtol"])
            factor = fac
            changed = False
            if S["stepcontrol"]:
                if not ok:
                    if fac > S["minfac"]:
                        last = z + 1 == S["cycl"]
                        if last:
                            z = 0
                        if last or j == jold:
                            fac = fac / S["reduce"]
                            changed = True
                            quiet = 0
                elif fac < S["maxfac"]:
                    if j == jold and z == 0 and quiet > 3:
                        fac = fac * (1 + (allowed - it) / allowed * S["increase"])
                        changed = True
                elif j == jold:
                    fac = S["maxfac"] * 1.0
                    changed = True
            log.append((i, z, jold, j, ok, valid, it, factor))
            if ok and valid:
                quiet += 1
                x = xn
                out.append((xn, factor, jold))
                break
            if z + 1 == S["cycl"]:
                return out, "recycles", log
            if not ok and j == jold and not changed:
                return out, "failed", log
            if not ok:
                j = jold
            z += 1
            used = 0
        if xlimit is not None and abs(x[xlimit[0] - 1]) > xlimit[1]:
            return out, "xlimit", log
    return out, reason, log
