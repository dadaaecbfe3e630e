"""C27: what the log says about the run is what the run stored."""
import contextlib
import io
import itertools
import math
import re

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.env import Endless, env_spec, make_model_class
from mc.envruns import SETS, make_env, scripts, scripts2
from mc.ref import Ref, define
from mc.runs import execute, records, settings
from mc.structures import S, relabel, steps

PROPERTY = "C27"
RULE = (
    "one case = a scripted response (see C09) or a real structure; each complete run under "
    "a settings variant, with one or two load steps, at log levels 0, 1 and 2 is a trace; "
    "its log is parsed and every line about steps, increments, load factors and reasons "
    "for the end of a step is compared with the stored results: one transition per "
    "increment announced in the log"
)
ASSUMPTIONS = [
    "the wording of the log lines (step, increment, final LPF, ERROR / EXIT) is the one of the documentation",
    "load factors are printed with 4 significant digits",
]
BOUND = {
    "quick": "all 1-component scripts of 3 cells x 4 slopes x 2 radii (512) x 5 settings; all 2-component scripts of 2 cells (324) x 3 settings; 9 real structures x 3 step patterns x 10 settings; load factors of 1e-11 to 1e6; up to 12 steps, 101 increments, 12 nodes; 3 log levels each; structure(s) of 40 nodes and 131 bars",
    "thorough": "1 component: 3 cells x 4 slopes x 3 radii (1728) x 12 settings; 2 components: 2 cells x 3 radii (729) x 8 settings; 9 real structures x 4 step patterns x 30 settings; load factors of 1e-11 to 1e6; up to 12 steps, 1001 increments, 12 nodes; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 8
Q1 = [0, 1, 7, 9, 14]
Q2 = [0, 1, 9]
T1 = [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 14, 17]
T2 = [0, 1, 3, 5, 7, 9, 14, 17]
RS = [
    dict(),
    dict(stepcontrol=True),
    dict(nfev=2, cycl=1),
    dict(nfev=3, cycl=2, stepcontrol=True),
    dict(nfev=2, cycl=4, stepcontrol=True, minfac=0.3),
    dict(xlimit=[-1, 0.07]),
    dict(xlimit=[0, 0.04]),
    dict(j_pre=False, dxtol=1.25),
    dict(j0=-1, j_fixed=True),
    dict(dxtol=1.25, nfev=4),
]
NAMES = ["bar1", "vm1", "vm2", "tripod", "frame", "nta", "chain", "par", "pframe"]


def cases(tier):
    q = tier == "quick"
    for name in NAMES:
        for pat in [(1,), (1, -0.6), (1, 0.5, -1)] + ([] if q else [(0.7, 0.7)]):
            for k in range(len(RS)):
                for c in (1,) if q else (1, 5, 40):
                    yield ["real", name, list(pat), k, c]
    # load factors of all sizes: huge and tiny loads
    for name in ("bar1", "vm2", "frame", "par"):
        for pat in [(1,), (1, -0.6)]:
            for k in (0, 1, 5, 8) if q else range(len(RS)):
                for s in (1e-9, 1e-4, 1e3, 1e6):
                    yield ["real", name, list(pat), k, 1, s]
    # two-digit numbers of steps and increments, structures of 12 nodes
    for k in (0, 1, 5, 7):
        yield ["long", "bar1", [1.0] * 2, k, 12]
        yield ["long", "frame", [0.5] * 12, k, 2]
        yield ["long", "bar1", [0.2] * 11, k, 11]
        yield ["long", "vm2", [1.0], k, 101 if q else 1001]
        yield ["long", "tower", [1.0, -0.5], k, 3]
    yield ["long", "mast", [1.0, -0.5], 0, 2]
    for sl, ra in scripts(3, radii=(0, 1) if q else (0, 1, 3)):
        yield ["env", sl, ra, Q1 if q else T1]
    for sl, ra in scripts2(2, radii=(0, 1) if q else (0, 1, 3)):
        yield ["env", sl, ra, Q2 if q else T2]


STEP = re.compile(r"^#+\s*Step\s+(\d+)\s*$")
INC = re.compile(r"^#+\s*Increment\s+(\d+)\s*$")
LPF = re.compile(r"^\*\s*final LPF:\s*(\S+)\s*$")
END = re.compile(r"^End of Step\s+(\d+)\s*$")
ERR = re.compile(r"^\*\s*\*\*ERROR")
EXIT = re.compile(r"^\*\s*EXIT")
WR = re.compile(r"^write result\s+(\d+)\s*/\s*(\d+)\s*\(LPF:\s*(\S+?)\)\s*$")


def parse(text):
    out = []
    for l in text.splitlines():
        l = l.strip()
        for k, rx in (("step", STEP), ("inc", INC), ("lpf", LPF), ("end", END), ("err", ERR), ("exit", EXIT), ("write", WR)):
            m = rx.match(l)
            if m:
                out.append((k,) + m.groups())
                break
    return out


def judge(lines, recs, nsteps, incs, limits, level, what):
    """the lines the documented log must consist of, from the stored results.
    incs, limits: per step"""
    want = []
    for s in range(1, nsteps + 1):
        if level > 0:
            want.append(("step", str(s)))
        mine = [r for r in recs[1:] if r["step"] == s]
        for i, r in enumerate(mine):
            if level > 0:
                want += [("inc", str(i + 1)), ("lpf", r["lpf"])]
        j, lim = limits[s - 1]
        over = bool(mine) and abs(mine[-1]["Vred"][j - 1]) > lim
        if over:
            want.append(("exit",))
        elif len(mine) < incs[s - 1]:
            if level > 0:
                want.append(("inc", str(len(mine) + 1)))
            want.append(("err",))
        if level > 1:
            for i, r in enumerate(mine):
                want.append(("write", str(i + 1), str(len(mine)), r["lpf"]))
        if level > 0:
            want.append(("end", str(s)))
    n = 0
    for i in range(max(len(lines), len(want))):
        g = lines[i] if i < len(lines) else None
        w = want[i] if i < len(want) else None
        ok = g is not None and w is not None and len(g) == len(w) and g[0] == w[0]
        if ok:
            for a, b in zip(g[1:], w[1:]):
                if isinstance(b, str):
                    ok = ok and a == b
                else:
                    try:
                        ok = ok and abs(float(a) - b) <= 6e-4 * abs(b) + 1e-14
                    except ValueError:
                        ok = False
        if not ok:
            raise Violation("the log does not report what was stored", level=level, line=i, got=lines[max(i - 2, 0) : i + 2], want=want[max(i - 2, 0) : i + 2], **what)
        n += g[0] == "inc"
    return n


_CLS = {}


def run(case):
    import trusspy as tp

    o = Outcome()
    if case[0] == "long":
        _, name, pat, k, incs = case
        spec = steps(S(name), pat)
        d = spec["set"]
        d.update(RS[k], incs=incs)
        if "xlimit" in RS[k]:
            d["xlimit"] = [-1, 10 * d.get("dlpf", 0.02)]
        one(tp, spec, None, o, dict(case=case))
    elif case[0] == "real":
        name, pat, k, c = case[1:5]
        spec = steps(S(name), pat)
        d = spec["set"]
        d.update(RS[k])
        d["incs"] = 6 if len(pat) == 1 else [4, 3, 2][: len(pat)]
        d["du"], d["dlpf"] = d.get("du", 0.02) * c, d.get("dlpf", 0.02) * c
        if len(case) > 5:
            # load factors s times as large
            s = case[5]
            d["dlpf"] *= s
            d["xtol"] = 8 - math.log10(max(s, 1.0))
            if "xlimit" in d and d["xlimit"][0] == -1:
                d["xlimit"] = [-1, d["xlimit"][1] * s]
            for F in spec["forces"]:
                F[1] = [v / s for v in F[1]]
        one(tp, spec, None, o, dict(case=case))
    else:
        _, sl, ra, sets = case
        if tp not in _CLS:
            _CLS[tp] = make_model_class(tp)
        for k in sets:
            for two in (0, 1):
                env, f0 = make_env(sl, ra)
                if SETS[k].get("j0") is not None and abs(SETS[k]["j0"]) > env.n + 1:
                    continue
                spec = env_spec(env.n, [f0, [-0.7 * v for v in f0]][: 1 + two], **dict(SETS[k], du=0.06, dlpf=0.05, incs=[5, 3] if two else 5, xlimit=[-1, 0.19] if k == 0 else [0, float("inf")]))
                one(tp, spec, (sl, ra), o, dict(case=case[:3], settings=SETS[k]))
    o.sample = dict(case=case)
    return o


def one(tp, spec, script, o, what):
    st = settings(spec)
    ns = st["nsteps"]
    incs = list(st["incs"]) if isinstance(st["incs"], (list, tuple)) else [st["incs"]] * ns
    limits = [st["xlimit"]] * ns
    for level in (0, 1, 2):
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                if script is None:
                    M = define(tp, spec, tp.Model(log=level))
                else:
                    M = _CLS[tp](log=level)
                    M.env, _ = make_env(*script)
                    define(tp, spec, M)
                M.build()
                buf.truncate(0)
                buf.seek(0)
                M.run()
        except ValueError:
            o.outcomes.add("singular")
            o.trace()
            return
        recs = records(M)
        n = judge(parse(buf.getvalue()), recs, ns, incs, limits, level, what)
        o.step(n if level else len(recs) - 1)
        o.trace()
        o.state(repr(what), level, [round(r["lpf"], 9) for r in recs])
        for s in range(1, ns + 1):
            m = sum(r["step"] == s for r in recs[1:])
            o.outcomes.add((level, m < incs[s - 1], "EXIT" in buf.getvalue()))


def final(tier, agg):
    if not any(isinstance(x, tuple) and x[2] for x in agg["outcomes"]):
        return dict(fail="no enumerated run ends at a value limit")
    if not any(isinstance(x, tuple) and x[1] and not x[2] for x in agg["outcomes"]):
        return dict(fail="no enumerated run fails")
    return {}
