"""C09: the real path follower in every scripted environment of the bound; the factors
recorded with the stored increments must be those of the documented rule, computed by an
independent reference follower in the same environment."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.env import Skip, follow
from mc.envruns import SETS, make_env, run_env, scripts, scripts2
from mc.runs import settings
from mc.env import env_spec

PROPERTY = "C09"
RULE = (
    "one case = one scripted response (slope and convergence radius per cell; the script "
    "decides for every attempt whether it converges, converges with another governing "
    "component, or fails); its traces are the complete runs under each settings variant; "
    "a transition is one attempt of the reference follower, a state the rounded "
    "(solution, factor, control component, recycles)"
)
ASSUMPTIONS = [
    "scripts whose reference run meets a tie (two governing components equal to 1e-7, a "
    "step exactly on the overshoot limit) or a singular system are skipped and counted",
    "the recorded dVmax of an increment is the limit under which it was accepted",
]
BOUND = {
    "quick": "1 component: all scripts of 3 cells x 4 slopes x 2 radii (512) x 10 settings; 2 components: all scripts of 2 cells (3 slopes each, 2 radii: 324) x 4 settings; 8 increments; 3 load steps under 2 settings",
    "thorough": "1 component: all scripts of 4 cells x 4 slopes x 3 radii (20736) x 18 settings; 2 components: 3 cells (5832) x 8 settings; 10 increments; 3 load steps under 2 settings",
}
CHUNK = 8
Q1 = [1, 3, 5, 7, 8, 10, 15, 18, 21, 23]
Q2 = [1, 3, 7, 8]
T1 = [1, 3, 5, 7, 8, 10, 12, 14, 15, 16, 17, 18, 19, 2, 4, 9, 21, 23]
T2 = [1, 3, 5, 7, 8, 10, 15, 19]


def cases(tier):
    if tier == "quick":
        for sl, ra in scripts(3):
            yield [sl, ra, Q1, 8]
        for sl, ra in scripts2(2):
            yield [sl, ra, Q2, 8]
    else:
        for sl, ra in scripts(4, radii=[0, 1, 2]):
            yield [sl, ra, T1, 10]
        for sl, ra in scripts2(3):
            yield [sl, ra, T2, 10]


def run(case):
    import trusspy as tp

    sl, ra, sets, incs = case
    o = Outcome()
    for k in sets:
        one(tp, o, sl, ra, k, [incs], [1.0])
        if k in sets[:2] and sum(ra) < len(ra):
            # the control logic starts anew in every load step
            one(tp, o, sl, ra, k, [incs - 3, 4, 3], [1.0, -0.8, 0.9])
    o.sample = dict(case=case)
    return o


def one(tp, o, sl, ra, k, incs, facs):
    env, f0 = make_env(sl, ra)
    f0s = [[c * v for v in f0] for c in facs]
    st = dict(SETS[k], incs=tuple(incs) if len(incs) > 1 else incs[0])
    st = dict(dict(du=0.06, dlpf=0.05), **st)
    S = settings(env_spec(env.n, f0s, **st))
    if S["j0"] is not None and abs(S["j0"]) > env.n + 1:
        return
    u, fc, plan = np.zeros(env.n), np.zeros(env.n), []
    try:
        for s, f in enumerate(f0s):
            env.f0 = np.array(f)
            want, reason, log = follow(env, S, fc, u, incs[s], None, edges=s > 0)
            plan.append((want, reason, log))
            if want:
                u = want[-1][0][: env.n]
                fc = fc + want[-1][0][env.n] * np.array(f)
    except Skip:
        o.outcomes.add("skipped" if len(facs) == 1 else "skipped in a later step")
        return
    env, f0 = make_env(sl, ra)
    M, recs, _ = run_env(tp, env, f0s, **st)
    base = np.append(np.full(env.n, st["du"]), st["dlpf"])
    for s, (want, reason, log) in enumerate(plan):
        got = []
        for r in recs[1:]:
            if r["step"] != s + 1:
                continue
            q = r["dVmax"] / base
            if np.max(q) - np.min(q) > 1e-9 * np.max(q):
                raise Violation("the limits do not share one common factor", settings=SETS[k], got=q)
            got.append(float(q[0]))
        exp = [w[1] for w in want]
        for i in range(min(len(got), len(exp))):
            if abs(got[i] - exp[i]) > 1e-6 * exp[i]:
                raise Violation(
                    "step factor does not follow the rule", settings=SETS[k], step=s + 1, increment=i + 1,
                    got=got, want=exp, attempts=[a[:7] for a in log if a[0] <= i],
                )
        if len(got) != len(exp):
            raise Violation("number of increments differs from the rule", settings=SETS[k], step=s + 1, got=got, want=exp, reason=reason)
        o.step(len(log))
        for a in log:
            o.state(k, len(facs), s, sl, ra, a[0], a[1], a[2], a[3], a[4], round(a[7], 9))
        if s and len(exp) > 1:
            o.outcomes.add("later step")
        o.outcomes.add((k, reason, len(exp), len(set(rnd(exp, 6)))))
    o.trace()


def final(tier, agg):
    oc = [x for x in agg["outcomes"] if isinstance(x, tuple)]
    if "later step" not in agg["outcomes"]:
        return dict(fail="no run is compared in a later load step")
    reasons = {x[1] for x in oc}
    if not {"incs", "failed", "recycles"} <= reasons or max(x[3] for x in oc) < 4:
        return dict(fail="the scripts do not reach all outcomes: %r" % reasons)
    return dict(runs_skipped_for_ties="skipped" in agg["outcomes"])
