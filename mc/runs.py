"""Helpers to execute complete build-and-run executions of the real code and to read
the recorded results in a canonical form."""

import contextlib
import io
import math

import numpy as np

from mc.core import Violation
from mc.ref import Ref, close, define


def execute(tp, spec, log=0, cls=None, M=None, **kw):
    "define, build and run; returns (model, captured output)"
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if M is None:
            M = define(tp, spec, (cls or tp.Model)(log=log, **kw))
        M.build()
        M.run()
    return M, buf.getvalue()


FIELDS = ("U", "U0", "r", "stretch", "element_stress", "element_force")


def rec(R):
    "one stored result as a plain dict of copies"
    d = {f: np.array(getattr(R, f), dtype=float) for f in FIELDS}
    d["lpf"] = float(R.lpf)
    d["step"] = int(R.step)
    d["Ured"] = np.array(R.Ured, dtype=float)
    # the undeformed result has no extended vector
    V = getattr(R, "Vred", None)
    d["Vred"] = None if V is None else np.array(V, dtype=float)
    sv = getattr(R, "state_v", None)
    d["state_v"] = None if sv is None else np.array(sv, dtype=float)
    dv = getattr(R, "dVmax", None)
    d["dVmax"] = None if dv is None else np.array(dv, dtype=float)
    d["fc"] = np.array(R.ExtForces.forces_const, dtype=float)
    d["f"] = np.array(R.ExtForces.forces, dtype=float)
    return d


DOCUMENTED = (
    "U U0 r g K stretch element_force element_stress element_stress0 DOF0 DOF1 Ured Vred "
    "rred state_v dVmax lpf step Kred"
).split()


def everything(R):
    "all documented fields of a stored result, as copies"
    d = {}
    for k in DOCUMENTED:
        v = getattr(R, k, None)
        if v is not None:
            d[k] = np.array(v, dtype=float)
    return d


def changed(a, b):
    "name of the first field that differs bit by bit, or None"
    for k in a:
        if k in b and not (a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True)):
            return k
    return None


def records(M):
    return [rec(R) for R in M.Results.R]


def same_record(a, b, tol, skip=()):
    "name of the first field in which two records differ, or None"
    for k in a:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if x is None or y is None:
            if not (x is None and y is None):
                return k
            continue
        if not close(np.ravel(x), np.ravel(y), tol):
            return k
    return None


def same_records(A, B, tol, skip=(), what="results differ", **detail):
    if len(A) != len(B):
        raise Violation(
            what + ": number of results %d / %d" % (len(A), len(B)), **detail
        )
    for i, (a, b) in enumerate(zip(A, B)):
        k = same_record(a, b, tol, skip)
        if k is not None:
            raise Violation(
                what + ": result %d field %s" % (i, k), got=b[k], want=a[k], **detail
            )


def total_load(ref, recs, i):
    """external load (nn,3) of stored result i from the definition alone: earlier steps
    at the load factor of their last stored increment, current step at lpf"""
    s = recs[i]["step"]
    f = recs[i]["lpf"] * ref.force(s - 1)
    for t in range(1, s):
        last = [k for k in range(1, len(recs)) if recs[k]["step"] == t]
        if last:
            f = f + recs[last[-1]]["lpf"] * ref.force(t - 1)
    return f


def settings(spec):
    "settings of a spec with trusspy's documented defaults filled in"
    d = dict(
        incs=50,
        stepcontrol=False,
        maxfac=10,
        minfac=1e-6,
        increase=0.5,
        reduce=8,
        dxtol=1.000001,
        ftol=8,
        xtol=8,
        cycl=4,
        nfev=8,
        dlpf=0.02,
        du=0.02,
        xlimit=(0, math.inf),
        j0=None,
        j_pre=True,
        j_fixed=False,
        nsteps=1,
    )
    d.update(spec.get("set", {}))
    return d
