"""Shared enumeration and execution of scripted environments (see env.py)."""

import contextlib
import io
import itertools

import numpy as np

from mc.core import Violation
from mc.env import Endless, Script, env_spec, make_model_class
from mc.ref import define
from mc.runs import records, settings

SL = [2.1, 0.45, -0.55, -1.9]
W = 0.1
# settings of the control logic that the scripts are combined with
SETS = [
    dict(),
    dict(stepcontrol=True),
    dict(dxtol=1.25),
    dict(stepcontrol=True, dxtol=1.25, reduce=4, increase=1.0, maxfac=2),
    dict(cycl=2),
    dict(stepcontrol=True, cycl=2, minfac=0.05),
    dict(j_pre=False),
    dict(stepcontrol=True, j_pre=False, cycl=3, nfev=5),
    dict(stepcontrol=True, nfev=3, maxfac=1.2),
    dict(cycl=1),
    dict(stepcontrol=True, cycl=8, minfac=1e-3, reduce=2.5, increase=0.8),
    dict(j_fixed=True, j0=1),
    dict(j_fixed=True, j0=-1, stepcontrol=True),
    dict(j_fixed=True, j0=2, dxtol=1.25),
    dict(j_fixed=True, j0=-2, stepcontrol=True, cycl=3),
    dict(stepcontrol=True, maxfac=0.5),
    dict(stepcontrol=True, minfac=1.0),
    dict(stepcontrol=True, cycl=1, minfac=1e-2),
    dict(j_fixed=True, j0=1, stepcontrol=True, maxfac=1.5, increase=2.0),
    dict(j0=1, j_pre=False, stepcontrol=True),
    # 20.. : more recycles than the default with wide tolerances on the limits, small limits
    dict(cycl=7, dxtol=100.0, nfev=4),
    dict(cycl=9, dxtol=100.0, stepcontrol=True, minfac=0.05),
    dict(nfev=2, du=0.0195),
    dict(nfev=2, du=0.0195, stepcontrol=True, cycl=6, reduce=2.0, minfac=0.1),
]
# what a cell (1 component) can do: slope x radius
RAD = [9.0, 0.07, 0.02, 1e-9]


def scripts(n_cells, slopes=SL, radii=RAD[:2]):
    for sl in itertools.product(range(len(slopes)), repeat=n_cells):
        for ra in itertools.product(range(len(radii)), repeat=n_cells):
            yield list(sl), list(ra)


def scripts2(n_cells, slopes=(0, 1, 3), radii=(0, 1)):
    "two components; the second one has its own slopes, radius shared"
    for s1 in itertools.product(slopes, repeat=n_cells):
        for s2 in itertools.product(slopes, repeat=n_cells):
            for ra in itertools.product(radii, repeat=n_cells):
                yield [list(s1), list(s2)], list(ra)


def make_env(sl, ra):
    if isinstance(sl[0], list):
        f0 = [1.0, 0.83]
        slopes = [[SL[i] for i in sl[0]], [SL[i] * 1.07 + 0.013 for i in sl[1]]]
    else:
        f0 = [1.0]
        slopes = [[SL[i] for i in sl]]
    return Script(slopes, [RAD[i] for i in ra], W, f0), f0


_CLS = {}


def run_env(tp, env, f0s, limit=200000, events=False, **st):
    "complete run of the real code in a scripted environment; returns (model, records)"
    if tp not in _CLS:
        _CLS[tp] = make_model_class(tp)
    spec = env_spec(env.n, f0s, **st)
    M = _CLS[tp](log=0)
    M.env = env
    M.limit = limit
    M.events = [] if events else None
    with contextlib.redirect_stdout(io.StringIO()):
        define(tp, spec, M)
        M.build()
        M.run()
    return M, records(M), settings(spec)


def horizon(S, incs):
    "generous bound on the residual evaluations of a step"
    red = 0
    if S["stepcontrol"]:
        red = int(np.ceil(np.log(max(S["maxfac"], 1.0) * (1 + S["increase"]) / S["minfac"]) / np.log(S["reduce"]))) + 2
        red = max(red, 1)
    return 4 * incs * (S["cycl"] * (red + 2) + 2) * (2 * S["nfev"] + 4) + 200
