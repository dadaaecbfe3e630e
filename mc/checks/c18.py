"""C18: Newton driven by scripted residuals and tangents: at every iterate the script
decides independently whether the residual and the last update are above or below their
tolerances; all scripts up to the depth."""
import contextlib
import io
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64

PROPERTY = "C18"
RULE = (
    "one case = dimension x tolerances x allowed iterations x first letters of the "
    "script; each completion of the script is one trace, each iteration a transition, a "
    "state the script prefix"
)
ASSUMPTIONS = ["regular tangents; norms are Euclidean; no value exactly on a tolerance"]
BOUND = {
    "quick": "dimensions 1,2,3, and 16, 40 for up to 2 iterations; print levels 0..3; up to 33 iterations with the first success anywhere; allowed iterations 1..4; residual levels {far, just above in norm but below per component, just below, zero-like} x update levels {same}: all 12^n (n<=3), 6^4; both norms 1e-4 above or below their tolerance, 7^n (n<=3); residuals up to 1e12 and updates up to 1e9 times their tolerance, 6^3; iterates of up to 1e18; 3 tolerance pairs; a residual (NaN, infinite) or tangent (NaN) that is no number at every iteration <= 4 after all prefixes over 5 letters",
    "thorough": "dimensions 1,2,3, and 16, 40 for up to 3 iterations; print levels 0..3; up to 70 iterations with the first success anywhere; allowed iterations 1..6, 12^n (n<=4), 4^6, 7^n (n<=4), 6^3 very large ones",
}
CHUNK = 4
TOLS = [(1e-8, 1e-8), (1e-3, 1e-6), (1e-7, 1e-2)]
# levels relative to the tolerance
RES = [1e4, 1.15, 0.6, 1e-3, 1.0001, 0.9999, 1e12]
UPD = [1e3, 1.15, 0.6, 1.0001, 0.9999, 1e9]
# very large residuals and updates
WIDE = [(6, 5), (2, 5), (6, 2), (0, 0), (2, 2), (1, 2)]
# close to the tolerances
TIGHT = [(4, 3), (4, 4), (5, 3), (5, 4), (4, 2), (2, 3), (0, 0)]


def cases(tier):
    q = tier == "quick"
    top = 4 if q else 6
    for dim in (1, 3, 16, 40):
        for it in range(3):
            for nfev in (12, 33) if q else (5, 8, 12, 33, 70):
                yield [dim, it, nfev, "long", [(0, 0), (0, 2), (2, 0), (1, 2), (2, 1)]]
            if dim > 3:
                letters = [(0, 0), (0, 2), (1, 2), (2, 0), (2, 1), (2, 2), (3, 2), (4, 2), (5, 4), (5, 3)]
                for first in letters:
                    yield [dim, it, 2 if q else 3, list(first), [list(l) for l in letters]]
    for dim in (1, 2, 3):
        for it in range(3):
            for nfev in range(1, top + 1):
                if nfev <= (3 if q else 4):
                    letters = list(itertools.product(range(4), range(3)))
                elif nfev == 4:
                    letters = [(0, 0), (0, 2), (1, 2), (2, 0), (2, 1), (2, 2)]
                else:
                    letters = [(0, 0), (0, 2), (2, 0), (2, 2)]
                if nfev <= 4:
                    yield [dim, it, nfev, "bad", []]
                if nfev == 3:
                    yield [dim, it, nfev, "stuck", []]
                    for first in WIDE:
                        yield [dim, it, nfev, list(first), [list(l) for l in WIDE]]
                if nfev <= (3 if q else 4):
                    for first in TIGHT:
                        yield [dim, it, nfev, list(first), [list(l) for l in TIGHT]]
                for first in letters:
                    yield [dim, it, nfev, list(first), [list(l) for l in letters]]


def bad_letters():
    "a value which is no number or infinite, in the residual or through the tangent"
    return list(itertools.product(("residual", "tangent"), (np.nan, np.inf)))


def direction(dim, k):
    "unit vectors with all components of similar size (norm > max component)"
    v = np.resize([1.0, -0.9, 1.1], dim) * np.resize([1, (-1) ** k, 1], dim)
    return v / np.linalg.norm(v)


def run(case):
    from trusspy.solvers import newton

    dim, it, nfev, first, letters = case
    ftol, xtol = TOLS[it]
    o = Outcome()
    if first == "bad":
        pre = [(0, 0), (0, 2), (1, 1), (2, 0), (3, 1)]
        for m in range(nfev):
            for script in itertools.product(pre, repeat=m):
                for where, v in bad_letters():
                    if where == "tangent" and v == np.inf:
                        # a stiff direction: the update is zero, not undefined
                        continue
                    for small in (0, 1):
                        spoil(newton, dim, ftol, xtol, nfev, list(script), where, v, small, o)
        o.sample = dict(case=case[:4], scripts=o.traces)
        return o
    if first == "stuck":
        for nf in range(1, 5):
            for size in (1e9, 1e12, 1e18):
                for up in (10.0, 1.15, 0.6):
                    stuck(newton, dim, ftol, xtol, nf, size, up, o)
        o.sample = dict(case=case[:4])
        return o
    if first == "long":
        for bad in letters:
            for m in range(nfev + 1):
                play(newton, dim, ftol, xtol, nfev, [bad] * m + [(2, 2)] * (nfev - m), o)
                if m + 2 < nfev:
                    play(newton, dim, ftol, xtol, nfev, [bad] * m + [(2, 2), bad, (3, 2)] + [bad] * (nfev - m - 3), o)
        o.sample = dict(case=case[:4], scripts=o.traces)
        return o
    for tail in itertools.product(letters, repeat=nfev - 1):
        script = [first] + [list(t) for t in tail]
        play(newton, dim, ftol, xtol, nfev, script, o)
    # more iterations allowed than the script is long: must stop at the first success
    if first[0] >= 2 and first[1] == 2:
        play(newton, dim, ftol, xtol, nfev + 3, [first] * (nfev + 3), o)
    o.sample = dict(case=case[:4], scripts=o.traces)
    return o


def spoil(newton, dim, ftol, xtol, nfev, script, where, v, small, o):
    """after the script (no success in it) one residual component is no number or
    infinite, or the tangent is no number; whatever follows can not be a success"""
    n = len(script)
    known = {}

    def number(x):
        "of the iterate"
        return known.setdefault(np.asarray(x, float).tobytes(), len(known))

    def f(x, *args):
        k = number(x)
        if k > n:
            if where == "residual":
                r = 1e-3 * ftol * direction(dim, k)
                r[k % dim] = v
                return r
            # residuals without fault at iterates which are no numbers
            return (1e-3 if small else 1e3) * ftol * direction(dim, k)
        return 0.5 * direction(dim, 5) if k == 0 else RES[script[k - 1][0]] * ftol * direction(dim, k)

    def dfdx(x, *args):
        k = number(x)
        if k >= n:
            if where == "tangent":
                return np.full((dim, dim), v)
            # the update itself is below its tolerance, or not
            r = 0.5 if n == 0 else RES[script[n - 1][0]] * ftol
            return np.eye(dim) * r / (xtol * (0.5 if small else 10.0))
        r = 0.5 if k == 0 else RES[script[k - 1][0]] * ftol
        return np.eye(dim) * r / (UPD[script[k][1]] * xtol)

    with np.errstate(all="ignore"):
        try:
            out = newton(f, dfdx, np.linspace(0.3, 0.7, dim), nfev, ftol, xtol, 0)
        except (FloatingPointError, ValueError, np.linalg.LinAlgError):
            # refusing the value is no success
            out = None
    if out is not None and bool(out[1]):
        raise Violation("success although the %s is %s" % (where, v), script=script, nfev=nfev, dim=dim, small=small)
    o.trace()
    o.step()
    o.states.add(h64(dim, ftol, script, nfev, where, repr(v), small))
    o.outcomes.add((nfev, where, repr(v)))


def stuck(newton, dim, ftol, xtol, nfev, size, up, o):
    """iterates so large that adding the update does not change them: the norm of the
    update, not the change of the iterate, decides"""
    r = 1e-3 * ftol * direction(dim, 1)
    x0 = size * direction(dim, 2)
    with contextlib.redirect_stdout(io.StringIO()):
        x, ok, n, fn, xn = newton(lambda x: r.copy(), lambda x: np.eye(dim) * (1e-3 * ftol / (up * xtol)), x0.copy(), nfev, ftol, xtol, 0)
    want = up < 1
    tag = dict(dim=dim, ftol=ftol, xtol=xtol, nfev=nfev, size=size, update=up)
    if bool(ok) != want or int(n) != (1 if want else nfev):
        raise Violation("success flag or number of iterations is wrong", got=[bool(ok), int(n)], want=want, **tag)
    if abs(xn - up * xtol) > 1e-6 * up * xtol:
        raise Violation("returned update norm is not the one of the iterate", got=xn, want=up * xtol, **tag)
    o.trace()
    o.step(int(n))
    o.states.add(h64(dim, ftol, nfev, size, up))


def play(newton, dim, ftol, xtol, nfev, script, o):
    # iterates X_0..X_n; residual R_k at X_k; update D_k leads from X_{k-1} to X_k
    X = [np.linspace(0.3, 0.7, dim)]
    D, R = [None], [0.5 * direction(dim, 5)]
    for k, (r, d) in enumerate(script, 1):
        D.append(UPD[d] * xtol * direction(dim, k))
        X.append(X[-1] + D[-1])
        R.append(RES[r] * ftol * direction(dim, k + 1))
    P = np.array(X)
    fine = 1e-6 * xtol + 1e-14 + (1e-13 * np.abs(P).max() if np.abs(P).max() > 1e2 else 0.0)
    extra = (11, "a", None)

    def index(x, args):
        if args != extra:
            raise Violation("extra arguments are not passed on", got=repr(args))
        d = np.abs(P - np.asarray(x)).max(axis=1)
        k = int(np.argmin(d))
        if d[k] > fine:
            raise Violation("function evaluated away from the iterates", x=x)
        return k

    def f(x, *args):
        return R[index(x, args)].copy()

    def dfdx(x, *args):
        k = index(x, args)
        if k + 1 >= len(X):
            return np.eye(dim)
        # a regular matrix J with J D_{k+1} = -R_k
        d, r = D[k + 1], -R[k]
        J = np.eye(dim) * (np.linalg.norm(r) / np.linalg.norm(d))
        return J + np.outer(r - J @ d, d) / (d @ d)

    x0 = X[0].copy()
    # with and without printing the iterations
    with contextlib.redirect_stdout(io.StringIO()):
        out = newton(f, dfdx, x0, nfev, ftol, xtol, o.traces % 4, *extra)
    x, ok, n, fn, xn = out
    want = None
    for k, (r, d) in enumerate(script, 1):
        if RES[r] < 1 and UPD[d] < 1:
            want = k
            break
    k = want if want is not None else nfev
    tag = dict(script=script, nfev=nfev, dim=dim, ftol=ftol, xtol=xtol)
    if not np.array_equal(x0, X[0]):
        raise Violation("the starting vector of the caller is changed", **tag)
    if bool(ok) != (want is not None):
        raise Violation("success flag is wrong", got=bool(ok), want=want is not None, **tag)
    if int(n) != k:
        raise Violation("number of iterations is wrong", got=int(n), want=k, **tag)
    if np.abs(np.asarray(x) - X[k]).max() > fine:
        raise Violation("returned vector is not the iterate", got=x, want=X[k], **tag)
    if abs(fn - np.linalg.norm(R[k])) > 1e-6 * np.linalg.norm(R[k]):
        raise Violation("returned residual norm is not the one of the iterate", got=fn, want=np.linalg.norm(R[k]), **tag)
    if abs(xn - np.linalg.norm(D[k])) > 1e-6 * np.linalg.norm(D[k]) + 1e-15:
        raise Violation("returned update norm is not the one of the iterate", got=xn, want=np.linalg.norm(D[k]), **tag)
    o.trace()
    o.step(k)
    for m in range(1, k + 1):
        o.states.add(h64(dim, ftol, script[:m], nfev))
    o.outcomes.add((nfev, k, want is not None))
