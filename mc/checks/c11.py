"""C11: termination and the fate of failing increments, in every scripted environment of
the bound (including scripts in which nothing converges) and on real structures with
starved solver settings; with one and two load steps."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.env import Endless, Skip, follow
from mc.envruns import SETS, horizon, make_env, run_env, scripts, scripts2
from mc.ref import Ref, close
from mc.runs import execute, records, settings, total_load
from mc.structures import S, steps

PROPERTY = "C11"
RULE = (
    "one case = a scripted response (see C09) or a real structure; each complete run "
    "under a settings variant with one or two load steps is a trace; transitions are the "
    "stored increments, each re-checked against the script; a horizon on residual "
    "evaluations decides termination; states are (script, settings, stored solution)"
)
ASSUMPTIONS = [
    "the iteration bound is 4x the product of increments, recycles, step reductions and "
    "iterations allowed by the settings",
    "singular systems (exception from the linear solver's result) count as ended",
]
BOUND = {
    "quick": "all 1-component scripts of 3 cells x 4 slopes x {no, .07, none} radius patterns (8 of 64 radius patterns each with all slopes) x 9 settings x {1,2} steps, and 3-4 steps with every pattern of steps in which nothing converges; 2 components 2 cells x 4 settings; 8 real structures x 18 starved settings",
    "thorough": "4 cells x 4 slopes x 16 radius patterns of 3 x 18 settings x {1,2} steps, and 3-4 steps with steps in which nothing converges; 2 components 3 cells x 8 settings; 9 structures x 48 settings",
}
CHUNK = 8
Q1 = [0, 1, 5, 7, 9, 14, 17, 20, 22]
Q2 = [0, 1, 7, 9]
T1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 17, 20, 21, 22, 23]
T2 = [0, 1, 2, 5, 7, 9, 10, 17]
RP3 = [(0, 0, 0), (0, 3, 0), (0, 0, 3), (3, 3, 3), (1, 0, 3), (0, 1, 1), (1, 1, 1), (1, 3, 0)]


def cases(tier):
    q = tier == "quick"
    for name in ["bar1", "vm1", "vm2", "tripod", "frame", "chain", "par", "pframe"] + ([] if q else ["nta"]):
        for sp in [(1,), (1, -0.6)] + ([] if q else [(1, 0.5, -1)]):
            for nfev, cycl, sc, c in itertools.product([2, 3, 5], [1, 2, 4], [False, True], [1, 5] if not q else [4]):
                yield ["real", name, list(sp), dict(nfev=nfev, cycl=cycl, stepcontrol=sc, c=c)]
    n = 3 if q else 4
    pats = RP3 if q else [p + (r,) for p in RP3 for r in (0, 3)]
    for sl in itertools.product(range(4), repeat=n):
        for ra in pats:
            yield ["env", list(sl), list(ra), Q1 if q else T1]
    for sl, ra in scripts2(2 if q else 3, radii=(0, 1, 3) if q else (0, 3)):
        yield ["env", sl, ra, Q2 if q else T2]


def run(case):
    import trusspy as tp

    o = Outcome()
    if case[0] == "real":
        return real(tp, case, o)
    _, sl, ra, sets = case
    for k in sets:
        env, f0 = make_env(sl, ra)
        st0 = dict(dict(du=0.06, dlpf=0.05), **SETS[k])
        one = None
        two = [f0, [-0.7 * v for v in f0]]
        runs = [([f0], 6, ()), (two, (6, 3), ())]
        if not any(ra) and k in sets[:3]:
            # three and four steps, nothing converges in the blocked ones
            for b in (1,), (2,), (3,), (1, 2), (2, 3), (1, 3):
                runs.append(([*two, [0.6 * v for v in f0]], (3, 2, 2), b))
            for b in (2,), (3,), (2, 3), (2, 4):
                runs.append(([f0, f0, [-0.4 * v for v in f0], f0], (2, 3, 2, 2), b))
        for f0s, incs, block in runs:
            st = dict(st0, incs=incs)
            env, f0 = make_env(sl, ra)
            env.block = block
            n = env.n
            S_ = dict(settings(dict(set=st)))
            if S_["j0"] is not None and abs(S_["j0"]) > n + 1:
                continue
            try:
                M, recs, S_ = run_env(tp, env, f0s, limit=horizon(S_, 9), **st)
            except Endless:
                raise Violation("the run does not end", settings=SETS[k], script=[sl, ra])
            except ValueError:
                o.outcomes.add("singular")
                continue
            tol = 10.0 ** -S_["ftol"]
            lam_end = []
            prev = np.zeros(n)
            pstep = 0
            fc = np.zeros(n)
            for i, r in enumerate(recs[1:], 1):
                s = r["step"]
                while pstep < s:
                    if pstep:
                        lam_end.append(last if had else 0.0)
                    had, last, pstep = False, 0.0, pstep + 1
                    fc = sum((l * np.array(f) for l, f in zip(lam_end, f0s)), np.zeros(n))
                    plam = 0.0
                u, lam = r["Vred"][:n], r["lpf"]
                env.f0 = np.array(f0s[s - 1], float)
                env.step = s
                g = env.residual(u, prev, lam, fc)
                if not np.linalg.norm(g) < tol * 1.001 + 1e-12:
                    raise Violation("an increment that did not converge is stored", settings=SETS[k], increment=i, step=s, residual=g, u=u, u0=prev, lpf=lam)
                dx = np.append(u - prev, lam - plam)
                q = np.abs(dx / r["dVmax"])
                if not S_["j_fixed"] and np.max(q) > S_["dxtol"] * (1 + 1e-9):
                    raise Violation("an increment beyond the step limits is stored", settings=SETS[k], increment=i, ratio=q)
                full = np.zeros(3)
                full[:n] = prev
                if not close(r["U0"][1], full, 0):
                    raise Violation("increment does not start at the last stored one", settings=SETS[k], increment=i, got=r["U0"][1], want=full)
                prev, plam = u, lam
                had, last = True, lam
                o.step()
                o.state(k, sl, ra, len(f0s), rnd(u, 9), round(lam, 9))
            n1 = [r for r in recs[1:] if r["step"] == 1]
            if one is None:
                one = recs
                env, _ = make_env(sl, ra)
                try:
                    want, reason, _ = follow(env, S_, np.zeros(n), np.zeros(n), incs, None)
                except Skip:
                    o.outcomes.add("tie")
                else:
                    o.outcomes.add(reason)
                    if len(recs) - 1 > len(want):
                        raise Violation("an increment that did not converge is stored", settings=SETS[k], script=[sl, ra], increment=len(want) + 1, reason=reason)
            elif block:
                o.outcomes.add(("blocked", block, len(recs)))
                w = [[r["lpf"] for r in recs[1:] if r["step"] == s] for s in range(1, len(f0s) + 1)]
                e, w = np.ravel(M.Results.step_lpf_end), [x[-1] if x else 0.0 for x in w]
                if len(e) != len(w) or np.any(e != w):
                    raise Violation("final load factors are not those of the last stored increments", settings=SETS[k], blocked=block, got=e, want=w)
                if any(r["step"] in block for r in recs[1:]):
                    raise Violation("an increment that did not converge is stored", settings=SETS[k], blocked=block)
            else:
                # the first step does not depend on a second one following; what failed
                # there leaves no trace
                if len(n1) != len(one) - 1 or any(not close(a["Vred"], b["Vred"], 0) for a, b in zip(n1, one[1:])):
                    raise Violation("first step differs when a second one follows", settings=SETS[k], got=[x["Vred"] for x in n1], want=[x["Vred"] for x in one[1:]])
                e = np.ravel(M.Results.step_lpf_end)
                w = n1[-1]["lpf"] if n1 else 0.0
                if len(e) and abs(e[0] - w) > 0:
                    raise Violation("final load factor of the first step is not the one of its last stored increment", settings=SETS[k], got=e[0], want=w)
            o.trace()
            o.outcomes.add((k, len(recs)))
        # dropping the increments that failed later changes nothing before them
        m = len(one) - 1 if one is not None else 0
        if 0 < m < 6:
            env, f0 = make_env(sl, ra)
            M, recs, _ = run_env(tp, env, [f0], **dict(st0, incs=m))
            if len(recs) != len(one) or any(not close(a["Vred"], b["Vred"], 0) for a, b in zip(recs[1:], one[1:])):
                raise Violation("a failing increment changed the increments before it", settings=SETS[k])
            o.trace()
            o.outcomes.add("failed-later")
    o.sample = dict(case=case)
    return o


def real(tp, case, o):
    _, name, sp, st = case

    class Count(tp.Model):
        n = 0
        limit = None

        def equilibrium(self, *a, **kw):
            self.n += 1
            if self.limit and self.n > self.limit:
                raise Endless()
            return super().equilibrium(*a, **kw)

    st = dict(st)
    c = st.pop("c")
    spec = steps(S(name), sp)
    d = spec["set"]
    d.update(st)
    d["du"], d["dlpf"] = d.get("du", 0.02) * c, d.get("dlpf", 0.02) * c
    d["incs"] = 6
    ref = Ref(spec)
    S_ = settings(spec)
    Count.limit = 2 * horizon(S_, 6 * len(sp))
    try:
        M, _ = execute(tp, spec, cls=Count)
    except Endless:
        raise Violation("the run does not end", case=case)
    except ValueError:
        o.outcomes.add("singular")
        o.trace()
        return o
    recs = records(M)
    tol = 1e-8
    states = ref.state0()
    for i in range(1, len(recs)):
        R = recs[i]
        ev = ref.eval(R["U"], states)
        states = ev["state"]
        res = (total_load(ref, recs, i) - ev["r"]).ravel()[ref.DOF1]
        if not np.linalg.norm(res) < tol * 1.01 + 1e-12:
            raise Violation("an increment that did not converge is stored", increment=i, residual=res)
        first = i == 1 or recs[i - 1]["step"] != R["step"]
        dx = R["Vred"] - np.append(recs[i - 1]["U"].ravel()[ref.DOF1], 0.0 if first else recs[i - 1]["lpf"])
        q = np.abs(dx / R["dVmax"])
        if np.max(q) > S_["dxtol"] * (1 + 1e-9):
            raise Violation("an increment beyond the step limits is stored", increment=i, ratio=q)
        if not close(R["U0"], recs[i - 1]["U"], 0):
            raise Violation("increment does not start at the last stored one", increment=i, got=R["U0"], want=recs[i - 1]["U"])
        o.step()
        o.state(case[1:], rnd(R["U"], 8))
    o.trace()
    o.outcomes.add((name, len(recs)))
    o.sample = dict(case=case, increments=len(recs) - 1)
    return o


def final(tier, agg):
    if not any(x[0] == "blocked" and x[2] > 3 for x in agg["outcomes"] if isinstance(x, tuple)):
        return dict(fail="no enumerated run continues after a step without any increment")
    if "failed-later" not in agg["outcomes"]:
        return dict(fail="no enumerated run fails after stored increments")
    return {}
