"""C26: mechanically equivalent descriptions of the same structure are run and compared."""
import copy
import functools
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close
from mc.runs import execute, records
from mc.structures import S, steps

PROPERTY = "C26"
RULE = (
    "one case = structure x load-step pattern x settings x one equivalent description "
    "(bars split into parallel bars, modulus traded for area, bars between supports, "
    "an unloaded copy beside the structure, loads on supports, reversed load with "
    "reversed control component, scaled load with scaled load-factor limit, a step "
    "split into two of the same load); it is run and compared increment by increment "
    "with the run of the plain description"
)
ASSUMPTIONS = [
    "generic structures; the increase of adaptive step control is off (it depends on the "
    "number of iterations); with yielding elements no adaptive step control, overshoot and "
    "unloading (rounding decides at the yield limit, see C05)",
    "a step is split only with the load factor as locked control component and for "
    "increments of equal size; agreement to 1e-6 relative",
]
BOUND = {
    "quick": "9 structures x 2 load-step patterns x 3 settings x every subset of bars split (3 shares), every bar traded, every pair of supported nodes joined, copy (4 label schemes), loads on every supported component, reversed, 3 load scales, every split point",
    "thorough": "the same with 3 patterns, 5 settings, 5 shares, splits in three, products of two transformations",
}
CHUNK = 8
NAMES = ["bar1", "vm1", "vm2", "tripod", "frame", "nta", "chain", "par", "pframe"]
PLASTIC = ("par", "pframe", "chain")
PAT = [(1,), (1, -0.6), (1, 0.5, 0.3)]
SETS = [
    dict(),
    dict(stepcontrol=True, increase=0.0, dxtol=1.25),
    dict(j_pre=False, dxtol=1.25),
    dict(j0=-1, j_fixed=True),
    dict(nfev=4, cycl=2),
]


def case_spec(name, ip, k):
    pat, st = PAT[ip], dict(SETS[k], incs=5)
    if name in PLASTIC:
        st.update(stepcontrol=False, dxtol=1.000001, nfev=8, cycl=4)
        pat = [abs(p) for p in pat]
    s = steps(S(name, **st), pat)
    return s


def free_nodes(s):
    return [l for l, v in s["bounds"] if any(v)] or [l for l, _ in s["nodes"] if l not in dict(s["bounds"])]


def transforms(s, q):
    ne = len(s["elems"])
    sup = [l for l, v in s["bounds"] if not any(v)]
    shares = [0.5, 0.3, 1e-4] if q else [0.5, 0.3, 0.9, 1e-3, 0.01]
    for m in range(1, 2**ne):
        if q and ne > 4 and bin(m).count("1") not in (1, 2, ne):
            continue
        for t in shares[: 3 if bin(m).count("1") < 2 or not q else 1]:
            yield ["split", m, t, m & 1]
    for i in range(ne):
        for t in (2.5, 1e-3, 1e4) if q else (2.5, 1e-3, 0.1, 1e4):
            yield ["trade", 1 << i, t]
    yield ["trade", 2**ne - 1, 0.37]
    for a, b in itertools.combinations(sup, 2):
        yield ["tie", a, b, 5.0, 1]
        yield ["tie", b, a, 0.01, 2]
    for sch in range(4):
        yield ["copy", sch]
    for l in sup:
        for d in range(3):
            yield ["supload", l, d]
    for l, v in s["bounds"]:
        for d in range(3):
            if any(v) and not v[d]:
                yield ["supload", l, d]
    yield ["reverse"]
    for t in (0.5, 3.0, 40.0) if q else (0.5, 3.0, 40.0, 1e-2, 1e3):
        yield ["scale", t]
    for n in range(1, 5):
        yield ["cut", n]


def cases(tier):
    q = tier == "quick"
    for name in NAMES:
        for ip in range(2 if q else 3):
            for k in range(3 if q else 5):
                s = case_spec(name, ip, k)
                T = list(transforms(s, q))
                for t in T:
                    if t[0] == "cut" and (ip or k):
                        continue
                    yield [name, ip, k, [t]]
                if not q:
                    one = {}
                    for t in T:
                        one.setdefault(t[0], t)
                    one.pop("cut")
                    for a, b in itertools.permutations(one.values(), 2):
                        if b[0] != "copy":
                            yield [name, ip, k, [a, b]]


class View:
    "maps results of the transformed model to those of the plain one"

    def __init__(self, s):
        self.parts = {e[0]: [[e[0], 1.0]] for e in s["elems"]}  # element -> parts
        self.stress = {e[0]: 1.0 for e in s["elems"]}
        self.nodes = [l for l, _ in s["nodes"]]
        self.lam = 1.0
        self.copy = []  # (label of copy nodes/elements) must stay at rest
        self.dead = []


def apply(s, v, t):
    kind = t[0]
    byl = {e[0]: e for e in s["elems"]}
    top = max([e[0] for e in s["elems"]])
    if kind == "split":
        _, m, share, turn = t
        for i, l in enumerate(list(v.parts)):
            if not m >> i & 1:
                continue
            e = byl[l]
            new = top + 10 + i
            e2 = [new, list(e[1])[::-1] if turn else list(e[1]), e[2], list(e[3]), e[4] * (1 - share)]
            e[4] = e[4] * share
            # the new bar stands before or after, depending on the share
            s["elems"].insert(0 if share > 0.4 else len(s["elems"]), e2)
            v.parts[l].append([new, 1.0])
    elif kind == "trade":
        _, m, c = t
        for i, l in enumerate(list(v.parts)):
            if m >> i & 1:
                for p, _ in v.parts[l]:
                    e = byl[p]
                    e[3] = [x * c for x in e[3]]
                    e[4] = e[4] / c
                v.stress[l] *= c
    elif kind == "tie":
        _, a, b, E, mt = t
        w = max(len(e[3]) for e in s["elems"])
        new = top + 3
        s["elems"].insert(1, [new, [a, b], mt, ([E, 0.1, 0.01] if mt == 2 else [E])[: max(w, 3)], 2.0])
        v.dead.append(new)
    elif kind == "copy":
        sch = t[1]
        plain = copy.deepcopy(s)
        labs = [l for l, _ in s["nodes"]]
        off = {0: lambda i, l: 100 + l, 1: lambda i, l: -100 - l, 2: lambda i, l: 1000 - l, 3: lambda i, l: 3 * l + 500}[sch]
        mp = {l: off(i, l) for i, l in enumerate(labs)}
        elab = [e[0] for e in s["elems"]]
        em = {l: 200 + l if sch < 2 else 900 - l for l in elab}
        N = [[mp[l], [X[0] + 0.37, X[1] - 0.2, X[2] + 5.0 * (sch % 2)]] for l, X in s["nodes"]]
        E = [[em[e[0]], [mp[a] for a in e[1]], 1, [e[3][0] * 1.3], e[4]] for e in s["elems"]]
        B = [[mp[l], list(x)] for l, x in s["bounds"]]
        if sch == 2:
            s["nodes"], s["elems"], s["bounds"] = N + s["nodes"], E + s["elems"], B + s["bounds"]
        else:
            s["nodes"], s["elems"], s["bounds"] = s["nodes"] + N, s["elems"] + E, s["bounds"] + B
        j = s["set"].get("j0")
        if j is not None:
            # the control component stays the same physical one
            A, B_ = Ref(plain), Ref(s)
            if abs(j) <= len(A.DOF1):
                d = A.DOF1[abs(j) - 1]
                d = 3 * B_.pos[A.labels[d // 3]] + d % 3
                s["set"]["j0"] = int(np.sign(j)) * (1 + list(B_.DOF1).index(d))
            else:
                s["set"]["j0"] = int(np.sign(j)) * (len(B_.DOF1) + 1)
        v.copy += list(mp.values())
        v.dead += list(em.values())
    elif kind == "supload":
        _, l, d = t
        F = dict((x, f) for x, f in s["forces"])
        n = max(len(f) for f in F.values())
        if l not in F:
            s["forces"].insert(0, [l, [0.0] * n])
        for x, f in s["forces"]:
            if x == l:
                for k in range(n // 3):
                    f[3 * k + d] += 0.7 * (-1) ** k + 0.1
    elif kind == "reverse":
        for x, f in s["forces"]:
            f[:] = [-y for y in f]
        st = s["set"]
        n = len(Ref(s).DOF1)
        j = st.get("j0")
        if j is None or abs(j) == n + 1 or j == 0:
            st["j0"] = -(n + 1) if j is None else -j
        v.lam *= -1
    elif kind == "scale":
        c = t[1]
        for x, f in s["forces"]:
            f[:] = [c * y for y in f]
        s["set"]["dlpf"] = s["set"].get("dlpf", 0.02) / c
        v.lam *= c
    else:
        raise KeyError(kind)


def read(M):
    nl = {int(l): i for i, l in enumerate(np.ravel(M.Nodes.labels))}
    el = {int(l): i for i, l in enumerate(np.ravel(M.Elements.labels))}
    return nl, el


@functools.lru_cache(None)
def base(name, ip, k):
    import trusspy as tp

    M, _ = execute(tp, case_spec(name, ip, k))
    return read(M), records(M)


def run(case):
    import trusspy as tp

    name, ip, k, ts = case
    o = Outcome()
    if ts[0][0] == "cut":
        return cut(tp, name, ts[0][1], o, case)
    (nl, el), want = base(name, ip, k)
    s = case_spec(name, ip, k)
    v = View(s)
    for t in ts:
        apply(s, v, t)
    M, _ = execute(tp, s)
    got = records(M)
    gn, ge = read(M)
    if len(got) != len(want):
        raise Violation("number of increments changed", transformation=ts, got=len(got), want=len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if g["step"] != w["step"] or not close(g["lpf"] * v.lam, w["lpf"], 1e-6):
            raise Violation("load factor changed", transformation=ts, increment=i, got=g["lpf"] * v.lam, want=w["lpf"])
        for l in v.nodes:
            for f in ("U", "U0"):
                if not close(g[f][gn[l]], w[f][nl[l]], 1e-6):
                    raise Violation("%s of a node changed" % f, transformation=ts, increment=i, node=l, got=g[f][gn[l]], want=w[f][nl[l]])
            if not close(g["r"][gn[l]], w["r"][nl[l]], 1e-6):
                raise Violation("force of a node changed", transformation=ts, increment=i, node=l, got=g["r"][gn[l]], want=w["r"][nl[l]])
        for l, parts in v.parts.items():
            N = sum(g["element_force"][ge[p]] for p, _ in parts)
            if not close(N, w["element_force"][el[l]], 1e-6):
                raise Violation("element force changed", transformation=ts, increment=i, element=l, got=N, want=w["element_force"][el[l]])
            for p, _ in parts:
                if not close(g["stretch"][ge[p]], w["stretch"][el[l]], 1e-6):
                    raise Violation("stretch changed", transformation=ts, increment=i, element=p, got=g["stretch"][ge[p]], want=w["stretch"][el[l]])
                if not close(g["element_stress"][ge[p]] / v.stress[l], w["element_stress"][el[l]], 1e-6):
                    raise Violation("stress changed", transformation=ts, increment=i, element=p, got=g["element_stress"][ge[p]] / v.stress[l], want=w["element_stress"][el[l]])
                if w["state_v"] is not None and not close(g["state_v"][ge[p]] / [v.stress[l], 1.0], w["state_v"][el[l]], 1e-6):
                    raise Violation("material state changed", transformation=ts, increment=i, element=p, got=g["state_v"][ge[p]], want=w["state_v"][el[l]])
        for l in v.copy:
            for f in ("U", "r"):
                if not close(g[f][gn[l]], np.zeros(3), 1e-9):
                    raise Violation("%s in the unloaded part" % f, transformation=ts, increment=i, node=l, got=g[f][gn[l]])
        for l in v.dead:
            if not close(g["element_force"][ge[l]], [0.0], 1e-9):
                raise Violation("force in an undeformed bar", transformation=ts, increment=i, element=l, got=g["element_force"][ge[l]])
        o.step()
        o.state(name, ip, k, [t[0] for t in ts], i, rnd(w["U"], 8))
    o.trace()
    o.outcomes.add((name, ip, k, tuple(t[0] for t in ts), len(got)))
    o.sample = dict(case=case, increments=len(got) - 1)
    return o


def cut(tp, name, n, o, case):
    "one step of 5 increments = n increments + 5-n increments of the same load"
    loc = dict(j_fixed=True, stepcontrol=False)
    a = S(name, **loc)
    a["set"]["incs"] = 5
    A, _ = execute(tp, a)
    b = steps(S(name, **loc), [1, 1])
    b["set"]["incs"] = [n, 5 - n]
    B, _ = execute(tp, b)
    ra, rb = records(A), records(B)
    if len(ra) != len(rb):
        raise Violation("splitting a step changes the number of increments", got=len(rb), want=len(ra))
    for i, (x, y) in enumerate(zip(ra, rb)):
        lam = y["lpf"] + (rb[n]["lpf"] if y["step"] == 2 else 0.0)
        if not close(lam, x["lpf"], 1e-6):
            raise Violation("splitting a step changes the load", increment=i, got=lam, want=x["lpf"])
        for f in ("U", "U0", "r", "stretch", "element_stress", "element_force"):
            if not close(y[f], x[f], 1e-6):
                raise Violation("splitting a step changes %s" % f, increment=i, got=y[f], want=x[f])
        if x["state_v"] is not None and not close(y["state_v"], x["state_v"], 1e-6):
            raise Violation("splitting a step changes the material state", increment=i, got=y["state_v"], want=x["state_v"])
        o.step()
        o.state(name, "cut", n, i, rnd(x["U"], 8))
    o.trace()
    o.outcomes.add((name, "cut", n, len(ra)))
    o.sample = dict(case=case, increments=len(ra) - 1)
    return o
