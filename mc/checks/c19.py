"""C19: for enumerated structures, histories of plots and every combination of plot
options, all artists of the figure are read back and compared with the results."""
import copy
import itertools
import re

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.plots import (VIEWS, arrows2, arrows3, bars2, bars3, colorbar, match, near, points2, points3)
from mc.ref import Ref, clone
from mc.runs import execute, records, total_load
from mc.structures import S, relabel, steps

PROPERTY = "C19"
RULE = (
    "one case = structure x labelling x view x contour/limit option; transitions are the "
    "plots of all increments (counted from both ends) x load scales; a state is the "
    "geometric content of the figure. part seq: all sequences of plot calls without "
    "closing figures in between"
)
ASSUMPTIONS = [
    "force arrows are all arrows which are not black (the axes triad of the 3d view)",
    "element colours are compared with the colour bar of the same figure (limits as "
    "requested); values on the border of two colour bands may take either",
]
BOUND = {
    "quick": "8 structures (1 to 6 steps, plastic, loads of very different size) x up to 3 labellings x 4 views x 9 contour options x all increments from both ends (+2 load scales); a tower of 12 nodes and 26 bars x 2 labellings x 3 contours; default options; increment numbers up to 1205; all plot sequences of length <= 2 over 8 calls",
    "thorough": "10 structures x 4 labellings x 4 views x 15 contour options x all increments x 3 load scales x 4 axis limits; a tower of 12 nodes and 26 bars; default options; all plot sequences of length <= 3",
}
CHUNK = 2
NMAP = [None, {1: 40, 2: 16777219, 3: 23, 4: 5, 5: 70000}, {1: 5, 2: 4, 3: 3, 4: 2, 5: 1}, {1: 0, 2: 100000, 3: 12, 4: 13, 5: 14}]
EMAP = [None, {1: 9, 2: 3, 3: 8, 4: 77, 5: 6, 6: 1}, {1: 6, 2: 5, 3: 4, 4: 3, 5: 2, 6: 1}, {1: 100, 2: 1, 3: 2, 4: 3, 5: 4, 6: 5}]

CONT = [
    (None, "auto"),
    ("force", "auto"),
    ("stress", "auto"),
    ("stretch", "auto"),
    ("force", [-0.3, 0.1]),
    ("stress", np.array([-0.05, 0.4])),
    ("stretch", (0.9, 1.05)),
    (("force", [-0.2, 0.2]), "auto"),
    (("stretch", [0.95, 1.1]), "auto"),
    (("stress", (-1.0, 1.0)), "auto"),
    ("force", np.array([-5, 5])),
    ("stress", [0.01, 0.02]),
    ("stretch", np.array([0.5, 1.5])),
    (("stress", [-0.02, 0.01]), [-9, 9]),
    (("force", [0.0, 0.6]), [-9, 9]),
]


def structure(name, lab):
    s = {
        "vm2": lambda: S("vm2", incs=3),
        "nta": lambda: S("nta", incs=2),
        "two": lambda: steps(S("tripod", incs=2), [1.0, {4: [0.0, 0.3, 0.2], 2: [0.1, 0, -0.1]}]),
        "par2": lambda: steps(S("par", incs=2, dlpf=0.1), [1.0, -0.3]),
        "load": lambda: loads(S("frame", incs=2)),
        "pframe": lambda: S("pframe", incs=3),
        "tower": lambda: steps(S("tower", incs=2), [1.0, {5: [0.1, 0.0, 0.2], 12: [0, 0.2, 0.1]}]),
        # loads of very different size, other nodes in every load step
        "far": lambda: steps(S("frame", incs=[2, 1, 2]), [{4: [3e-4, 0, -0.3], 5: [0, -2.5e-7, 0]}, {5: [0.2, 0, 1e-5], 1: [4e-6, 0, 0]}, {4: [0, 1e-3, 0]}]),
        # beyond the limit point: the load factor changes its sign
        "snap": lambda: S("vm2", incs=12, du=0.16, dlpf=0.2),
        "three": lambda: steps(S("frame", incs=[1, 2, 1]), [1.0, -0.5, {5: [0.1, 0.0, 0.2]}]),
        # six load steps, each with loads of its own
        "six": lambda: steps(S("frame", incs=[1, 1, 2, 1, 1, 1]), [{4: [0.1 * (k + 1), 0.2 - 0.07 * k, -0.3], 5: [0, -0.25, 0.03 + 0.07 * k]} for k in range(6)]),
    }[name]()
    if name == "tower":
        # one- and two-digit labels in order; then shuffled; reversed; far apart
        n, e = [l for l, _ in s["nodes"]], [x[0] for x in s["elems"]]
        f = [lambda l, k: l, lambda l, k: (5 * l) % (k + 1 if k == 12 else k + 3), lambda l, k: k + 1 - l, lambda l, k: 1000 - 37 * l][lab]
        s = relabel(s, {l: f(l, 12) for l in n}, {l: f(l, 26) for l in e})
    else:
        s = relabel(s, NMAP[lab], EMAP[lab])
    if lab in (1, 3):
        s["nodes"] = s["nodes"][::-1]
        s["elems"] = s["elems"][1:] + s["elems"][:1]
    return s


def loads(s):
    "loads in every direction, also on a support"
    s["forces"] = [[1, [0.5, -0.2, 0.3]], [4, [0.2, 0, -0.3]], [5, [0, -0.25, 0]]]
    return s


CALLS = ["xz", "yz:force", "3d", "3d:stress", "history", "path", "zero", "figure"]


def cases(tier):
    q = tier == "quick"
    names = ["vm2", "nta", "two", "par2", "load", "far", "snap"] + ([] if q else ["pframe", "three"])
    for name in names:
        for lab in range(3 if q and name in ("vm2", "two") else 2 if q else 4):
            for view in ["xz", "xy", "yz", "3d"]:
                for ic in range(9 if q else len(CONT)):
                    if q and view == "3d" and (ic + lab) % 3:
                        continue
                    for lim in range(1 if q else 4):
                        if lim and (ic + lab) % 4:
                            continue
                        yield ["one", name, lab, view, ic, lim]
    for lab in range(2 if q else 4):
        for view in ["xz", "xy", "yz", "3d"]:
            for ic in (0, 1, 5) if q else range(len(CONT)):
                yield ["one", "tower", lab, view, ic, 0]
    for view in ["xz", "xy", "yz", "3d"]:
        for ic in (0, 3) if q else range(len(CONT)):
            yield ["one", "six", 1, view, ic, 0]
    yield ["late", 1]
    # no options at all
    for name in names + ["tower"]:
        yield ["default", name, 1]
    n = 2 if q else 3
    for L in range(2, n + 1):
        for seq in itertools.product(CALLS, repeat=L):
            if L == 3 and seq[2] in ("history", "path", "zero", "figure"):
                continue
            yield ["seq", list(seq)]
    for lim in range(1, len(LIMS)):
        for view in ["xz", "xy", "yz", "3d"]:
            yield ["one", "nta", 1, view, 1, lim]


# axis limits: (argument, allowed views)
LIMS = [
    (1.5, None),
    (-4.0, None),
    ((-3.0, 4.0), "2"),
    ((-3.0, 4.0, -1.0, 5.0), "2"),
    ((-3.0, 4.0, -1.0, 5.0, -2.0, 6.0), "3"),
    (1.0, None),
]

_MODELS = {}


def model(name, lab):
    import trusspy as tp

    if (name, lab) not in _MODELS:
        spec = structure(name, lab)
        M, _ = execute(tp, spec)
        _MODELS[name, lab] = (spec, M, records(M))
    return _MODELS[name, lab]


def run(case):
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        return {"one": one, "seq": seq, "default": default, "late": late}[case[0]](case)
    finally:
        plt.close("all")


def one(case):
    import matplotlib.pyplot as plt

    _, name, lab, view, ic, lim = case
    spec, M, recs = model(name, lab)
    o = Outcome()
    cont, cbar = CONT[ic]
    ls, only = LIMS[lim]
    if only and (view == "3d") != (only == "3"):
        return o
    n = len(recs)
    for inc in range(-n, n):
        for fs in (1.0, 0.35) if inc in (0, n - 1) else (0.6,):
            fig, ax = M.plot_model(
                view=view, contour=copy.deepcopy(cont), lim_scale=ls, force_scale=fs, cbar_limits=copy.deepcopy(cbar), inc=inc
            )
            judge(o, fig, ax, spec, recs, view, cont, cbar, ls, fs, inc)
            plt.close("all")
    o.trace()
    o.outcomes.add((name, view, cont if isinstance(cont, str) else repr(cont)))
    o.sample = dict(case=case, increments=n)
    return o


def late(case):
    "increments up to four digits (stored results repeated)"
    import matplotlib.pyplot as plt

    spec, M, recs = model("vm2", case[1])
    o = Outcome()
    M = copy.copy(M)
    M.Results = copy.copy(M.Results)
    base, br = list(M.Results.R[1:]), recs[1:]
    while len(M.Results.R) < 1206:
        M.Results.R = M.Results.R + base
        recs = recs + br
    n = len(recs)
    for inc in (9, 10, 99, 100, 101, 255, 256, 999, 1000, 1001, 1199, n - 1, -1, -2, -100, -1000, -n):
        fig, ax = M.plot_model(inc=inc, view="xz", contour="force", lim_scale=1.2, force_scale=0.7)
        judge(o, fig, ax, spec, recs, "xz", "force", "auto", 1.2, 0.7, inc)
        plt.close("all")
    o.trace()
    o.outcomes.add(("late",))
    o.sample = dict(case=case)
    return o


def default(case):
    "without options: last increment, xz view, no contour, everything visible"
    import matplotlib.pyplot as plt

    _, name, lab = case
    spec, M, recs = model(name, lab)
    o = Outcome()
    for kw in (dict(), dict(contour="force"), dict(view="xy"), dict(inc=1)):
        fig, ax = M.plot_model(**kw)
        judge(o, fig, ax, spec, recs, kw.get("view", "xz"), kw.get("contour"), "auto", 1.2, 1.0, kw.get("inc", -1))
        plt.close("all")
    o.trace()
    o.outcomes.add(("default", name))
    o.sample = dict(case=case)
    return o


def judge(o, fig, ax, spec, recs, view, cont, cbar, ls, fs, inc):
    n = len(recs)
    i = inc if inc >= 0 else n + inc
    ref = Ref(spec)
    R = recs[i]
    X = np.array([ref.X[l] for l in ref.labels])
    x = X + R["U"]
    tag = dict(increment=inc, view=view, contour=cont, limits=cbar, labels=ref.labels)
    # total external load of the increment, of the reference load in increment 0
    F = ref.force(0) if i == 0 else total_load(ref, recs, i)
    # rounding errors of loads which cancel are no loads
    F = np.where(np.abs(F) <= 1e-13 * np.abs(F).max(), 0.0, F)
    ends = [(ref.pos[a], ref.pos[b]) for _, (a, b), *_ in spec["elems"]]
    if view == "3d":
        from mpl_toolkits.mplot3d import proj3d

        fig.canvas.draw()
        pts, bars = points3(ax), bars3(ax)
        want = [tuple(p) for p in x]
        arr = []
        for p, f in zip(x, F):
            for k in range(3):
                if f[k] != 0:
                    q = np.array(p)
                    q[k] += fs * f[k]
                    a, b = (proj3d.proj_transform(*v, ax.M)[:2] for v in (p, q))
                    arr.append((tuple(map(float, a)), tuple(map(float, b))))
        got_arr = [(a, b) for a, b, c in arrows3(ax) if c[:7] != "#000000"]
        tol = 1e-7
    else:
        a, b = VIEWS[view]
        pts, bars = points2(ax), bars2(ax)
        want = [(p[a], p[b]) for p in x]
        arr = []
        for p, f in zip(x, F):
            if f[a] != 0:
                arr.append(((p[a], p[b]), (p[a] + fs * f[a], p[b])))
            if f[b] != 0:
                arr.append(((p[a], p[b]), (p[a], p[b] + fs * f[b])))
        got_arr = arrows2(ax)
        tol = 1e-9
    missing, surplus = match(want, pts, near)
    if missing:
        raise Violation("a node is not drawn where it is", node=missing[0], drawn=pts, **tag)
    if [p for p in surplus if not (view == "3d" and near(p, (0, 0, 0)))]:
        raise Violation("a point is drawn which is no node", points=surplus, **tag)
    # elements: the topmost line between the two end nodes
    top = {}
    segs = [(want[p], want[q]) for p, q in ends]
    for k, (sg, col, z, idx) in enumerate(bars):
        hit = [e for e, (p, q) in enumerate(segs) if (near(sg[0], p) and near(sg[1], q)) or (near(sg[0], q) and near(sg[1], p))]
        if not hit:
            raise Violation("a line is drawn which is no element", line=sg, **tag)
        for e in hit:
            top.setdefault(e, []).append((z, idx, col))
    per = {}
    for e in range(len(segs)):
        if e not in top:
            raise Violation("an element is not drawn between its own end nodes", element=spec["elems"][e][0], nodes=segs[e], **tag)
    lastz = {e: max(z for z, _, _ in v) for e, v in top.items()}
    cols = {e: [c for z, _, c in v if z == lastz[e]] for e, v in top.items()}
    # arrows
    missing, surplus = match(arr, got_arr, lambda w, g: near(w[0], g[0], tol) and near(w[1], g[1], tol))
    surplus = [g for g in surplus if not near(g[0], g[1], tol)]
    if missing or surplus:
        raise Violation("the load arrows are wrong", missing=missing, surplus=surplus, scale=fs, **tag)
    # title, if it names the increment
    t = ax.get_title()
    m = re.search(r"INCREMENT:\s*(-?\d+)", t)
    if m and int(m.group(1)) != i:
        raise Violation("the title names another increment", title=t, **tag)
    if "UNDEFORMED" in t and i != 0:
        raise Violation("the title names another increment", title=t, **tag)
    # contour
    cb = colorbar(fig)
    if cont is None or i == 0:
        if cb is not None:
            raise Violation("a colour bar without a contour", **tag)
    else:
        q = cont if isinstance(cont, str) else cont[0]
        field = dict(force="element_force", stress="element_stress", stretch="stretch")[q]
        val = np.ravel(R[field])
        if not isinstance(cont, str):
            lo, hi = cont[1]
        elif not isinstance(cbar, str):
            lo, hi = cbar
        else:
            mid = 1.0 if q == "stretch" else 0.0
            d = max(abs(val - mid))
            lo, hi = mid - d, mid + d
        if cb is None:
            raise Violation("no colour bar", **tag)
        if hi - lo < 1e-9:
            # nothing but rounding errors: no band of colours to speak of
            lo, hi = cb[0], cb[1]
        if not near((cb[0], cb[1]), (lo, hi)):
            raise Violation("the colour bar has other limits than requested", got=cb[:2], want=(lo, hi), **tag)
        from matplotlib.colors import to_hex

        eps = 1e-7 * (hi - lo)
        used = {}
        for e in range(len(segs)):
            ok = {to_hex(cb[2].cmap(cb[2].norm(v)), True) for v in (val[e], val[e] - eps, val[e] + eps)}
            # elements between the same two nodes lie on top of each other
            twins = [f for f in range(len(segs)) if set(ends[f]) == set(ends[e])]
            c = cols[e]
            if len(twins) == 1:
                c = [c[-1]]
            if not ok & set(c):
                raise Violation("an element is not coloured by its own value", element=spec["elems"][e][0], value=val[e], got=c, want=sorted(ok), **tag)
    # view
    if view != "3d":
        if (ax.get_xlabel(), ax.get_ylabel()[:1] if cb is None else None) != (view[0], view[1] if cb is None else None):
            raise Violation("axis labels do not belong to the view", got=(ax.get_xlabel(), ax.get_ylabel()), **tag)
    if isinstance(ls, tuple):
        lim = list(ls) * (2 if len(ls) == 2 else 1)
        got = list(ax.get_xlim()) + list(ax.get_ylim()) + (list(ax.get_zlim()) if view == "3d" else [])
        if len(got) == len(lim) and not near(got, lim, 1e-6):
            raise Violation("axis limits are not as requested", got=got, want=lim, **tag)
    elif ls >= 1.0 and view != "3d":
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        e = 1e-9
        for p in want:
            if not (x0 - e <= p[0] <= x1 + e and y0 - e <= p[1] <= y1 + e):
                raise Violation("a node is outside of the picture", node=p, limits=(x0, x1, y0, y1), **tag)
    o.step()
    o.state(view, rnd(np.array([c for p in want for c in p]), 6), [sorted(set(v))[0] for v in cols.values()], len(arr))


def seq(case):
    import matplotlib.pyplot as plt

    o = Outcome()
    spec, M, recs = model("two", 1)
    hist = []
    kept = []
    for call in case[1]:
        hist.append(call)
        if call == "history":
            M.plot_history(nodes=[spec["nodes"][0][0]] * 2)
        elif call == "path":
            M.plot_path(nodepath=[l for l, _ in spec["nodes"]])
        elif call == "figure":
            plt.figure()
            plt.plot([0, 1], [0, 1])
        else:
            inc = {"xz": 2, "yz:force": 3, "3d": 1, "3d:stress": 4, "zero": 0}[call]
            view = "xy" if call == "zero" else call.split(":")[0]
            cont = call.split(":")[1] if ":" in call else None
            fig, ax = M.plot_model(view=view, contour=cont, inc=inc, force_scale=0.5)
            kept.append((fig, ax, view, cont, inc, hist[:]))
    # every picture must still be what was asked for
    for fig, ax, view, cont, inc, h in kept:
        try:
            judge(o, fig, ax, spec, recs, view, cont, "auto", 1.2, 0.5, inc)
        except Violation as v:
            v.detail["history"] = h
            raise
    o.trace()
    o.outcomes.add(("seq", len(kept)))
    o.sample = dict(case=case)
    return o
