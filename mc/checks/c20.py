"""C20: every combination of quantities, nodes, increments and target figures of history
and path plots is drawn and the curve is read back and compared with the stored results;
sequences of plots into shared figures."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import Ref
from mc.runs import records, same_records
from mc.checks.c19 import model

PROPERTY = "C20"
RULE = (
    "part hist/path: one case = structure x labelling x quantity x target (new figure, "
    "passed figure, axes of a grid); transitions are the plots of all quantities and node "
    "pairs (all node paths and increments); a state is a drawn curve. part seq: all "
    "sequences of plots into two shared figures"
)
ASSUMPTIONS = [
    "quantities: displacement and force components, load factor and (history plots) the "
    "increment number; state variables are kept per element and are left out",
]
BOUND = {
    "quick": "3 structures x 3 labellings, 8x8 quantities, all ordered node pairs; 7 quantities x all increments from both ends x all node paths of length <= 3 + 5 longer; 3 targets; a tower of 12 nodes (48 node pairs); default options; 6 load steps; histories of 330 increments; sequences of length <= 4 over 6 plots",
    "thorough": "7 structures x 4 labellings, the same quantities, node paths of length <= 4; a tower of 12 nodes (48 node pairs); default options; 6 load steps; histories of 1200 increments; sequences of length <= 5",
}
CHUNK = 2
Q = ["Displacement X", "Displacement Y", "Displacement Z", "Force X", "Force Y", "Force Z", "LPF"]
NAMES = ["two", "par2", "snap", "vm2", "nta", "load", "pframe"]


def cases(tier):
    q = tier == "quick"
    for name in NAMES[: 3 if q else 7]:
        for lab in range(3 if q else 4):
            for iq in range(8):
                yield ["hist", name, lab, iq]
            for iq in range(7):
                yield ["path", name, lab, iq, 3 if q else 4]
    for lab in range(2 if q else 4):
        for iq in (1, 3, 6, 7):
            yield ["hist", "tower", lab, iq]
        for iq in (0, 5):
            yield ["path", "tower", lab, iq, 2]
    # six load steps
    for iq in (0, 5, 6, 7):
        yield ["hist", "six", 1, iq]
    for iq in (2, 3, 6):
        yield ["path", "six", 1, iq, 2]
    yield ["late", 330 if q else 1200]
    yield ["default"]
    for L in range(1, 5 if q else 6):
        for seq in itertools.product(range(6), repeat=L):
            if L < 5 or seq[0] < 2:
                yield ["seq", list(seq)]


def value(spec, ref, recs, i, node, what):
    if what == "LPF":
        return recs[i]["lpf"]
    F = recs[i]["U" if what[0] == "D" else "r"]
    return F[ref.pos[node]]["XYZ".index(what[-1])]


def curve(ref, recs, node, what, spec):
    n = len(recs)
    if what == "Increments":
        return list(range(n + 1))
    return [0.0] + [value(spec, ref, recs, i, node, what) for i in range(n)]


def same(got, want):
    got = np.asarray(got, float)
    return got.shape == np.shape(want) and np.array_equal(got, np.asarray(want, float))


def target(kind):
    import matplotlib.pyplot as plt

    if kind == 0:
        return None, None, None
    if kind == 1:
        fig, ax = plt.subplots()
        return fig, ax, None
    fig, axs = plt.subplots(2, 2)
    return fig, axs[1, 0], [a for a in axs.ravel() if a is not axs[1, 0]]


def drawn(fig, ax, f, a, others, nf, tag):
    "the line just drawn; figures and axes must be the ones asked for"
    import matplotlib.pyplot as plt

    if fig is not None and (f is not fig or a is not ax):
        raise Violation("the figure passed in is not the one used", **tag)
    if fig is not None and len(plt.get_fignums()) != nf:
        raise Violation("a figure is opened although one is passed in", **tag)
    if others and any(len(x.lines) for x in others):
        raise Violation("the plot is drawn into other axes", **tag)
    lines = [l for l in a.lines if l.get_visible() and l.get_alpha() != 0]
    if not lines:
        raise Violation("no curve is drawn", **tag)
    return lines


def run(case):
    import matplotlib.pyplot as plt

    plt.close("all")
    o = Outcome()
    try:
        globals()["run_" + case[0]](case, o)
    finally:
        plt.close("all")
    o.sample = dict(case=case)
    return o


def run_default(case, o):
    "without options: displacement X of node 1 (and load factor) of the last increment"
    import matplotlib.pyplot as plt

    for name in ("two", "load", "tower"):
        spec, M, recs = model(name, 0)
        ref = Ref(spec)
        f, a = M.plot_history()
        l = drawn(None, None, f, a, None, 0, dict(name=name))[-1]
        if not same(l.get_xdata(), curve(ref, recs, 1, "Displacement X", spec)) or not same(l.get_ydata(), curve(ref, recs, 1, "LPF", spec)):
            raise Violation("default history plot is not load factor over displacement of node 1", name=name, got=[l.get_xdata(), l.get_ydata()])
        f, a = M.plot_history(nodes=[4, 4])
        l = drawn(None, None, f, a, None, 0, dict(name=name))[-1]
        if not same(l.get_xdata(), curve(ref, recs, 4, "Displacement X", spec)) or not same(l.get_ydata(), curve(ref, recs, 4, "LPF", spec)):
            raise Violation("history plot without quantities is not load factor over displacement", name=name, got=[l.get_xdata(), l.get_ydata()])
        f, a = M.plot_path(nodepath=[3, 4, 2])
        l = drawn(None, None, f, a, None, 0, dict(name=name))[-1]
        if not same(l.get_ydata(), [value(spec, ref, recs, len(recs) - 1, k, "Displacement X") for k in (3, 4, 2)]):
            raise Violation("default path plot is not the displacement of the last increment", name=name, got=l.get_ydata())
        o.step(3)
        o.state("default", name)
        plt.close("all")
    o.trace()
    o.outcomes.add("default")


def run_late(case, o):
    "many increments (stored results repeated)"
    import copy

    import matplotlib.pyplot as plt

    spec, M, recs = model("two", 1)
    ref = Ref(spec)
    M = copy.copy(M)
    M.Results = copy.copy(M.Results)
    base, br = list(M.Results.R[1:]), recs[1:]
    while len(M.Results.R) < case[1]:
        M.Results.R = M.Results.R + base
        recs = recs + br
    n = len(recs)
    a, b = [l for l, _ in spec["nodes"]][-2:]
    for X, Y in itertools.product(Q[:1] + Q[5:] + ["Increments"], repeat=2):
        f, x = M.plot_history(nodes=[a, b], X=X, Y=Y)
        tag = dict(nodes=[a, b], X=X, Y=Y)
        gx, gy = drawn(None, None, f, x, None, 0, tag)[-1].get_data()
        if not same(gx, curve(ref, recs, a, X, spec)) or not same(gy, curve(ref, recs, b, Y, spec)):
            raise Violation("history plot: the values are not the stored ones", increments=n, **tag)
        o.step()
        plt.close("all")
    for inc in (9, 10, 99, 100, 127, 128, 255, 256, n - 2, n - 1, -1, -2, -128, -129, -n):
        check_path(o, M, spec, ref, recs, (a, b, a), inc, "Displacement Z", None, None, None)
        plt.close("all")
    o.trace()
    o.state("late", n)
    o.outcomes.add("late")


def run_hist(case, o):
    import matplotlib.pyplot as plt

    _, name, lab, iq = case
    spec, M, recs = model(name, lab)
    ref = Ref(spec)
    labs = [l for l, _ in spec["nodes"]]
    X = (Q + ["Increments"])[iq]
    kind = 0
    for Y in Q + ["Increments"]:
        for a, b in itertools.product(labs, repeat=2):
            # twelve nodes: every node with itself and with three others
            if len(labs) > 6 and (labs.index(a) - labs.index(b)) % 12 not in (0, 1, 5, 8):
                continue
            # quantities without node: one pair is enough
            if X in ("LPF", "Increments") and a != labs[-1]:
                continue
            if Y in ("LPF", "Increments") and b != labs[0]:
                continue
            kind = (kind + 1) % 3
            fig, ax, others = target(kind)
            nf = len(plt.get_fignums())
            f, x = M.plot_history(nodes=[a, b], X=X, Y=Y, fig=fig, ax=ax)
            tag = dict(labels=labs, nodes=[a, b], X=X, Y=Y)
            l = drawn(fig, ax, f, x, others, nf, tag)
            if len(l) != 1:
                raise Violation("more than one curve is drawn", **tag)
            gx, gy = l[0].get_data()
            wx, wy = curve(ref, recs, a, X, spec), curve(ref, recs, b, Y, spec)
            if not same(gx, wx):
                raise Violation("history plot: the x values are not the stored ones", got=gx, want=wx, **tag)
            if not same(gy, wy):
                raise Violation("history plot: the y values are not the stored ones", got=gy, want=wy, **tag)
            o.step()
            o.states.add(h64(tuple(wx), tuple(wy)))
            plt.close("all")
    same_records(recs, records(M), 0.0, what="plotting changes the results")
    o.trace()
    o.outcomes.add((name, X))


def paths(labs, n):
    for L in range(1, min(n, len(labs)) + 1):
        yield from itertools.permutations(labs, L)
    yield tuple(labs[::-1])
    yield tuple(labs) + tuple(labs[:1])
    yield (labs[0], labs[0])
    yield tuple(sorted(labs))
    r = range(min(labs), max(labs) + 1)
    if len(r) == len(labs):
        yield r
        yield tuple(r)


def check_path(o, M, spec, ref, recs, p, inc, Y, fig, ax, others, nl=0):
    import matplotlib.pyplot as plt

    nf = len(plt.get_fignums())
    arg = list(p) if isinstance(p, tuple) else p
    f, x = M.plot_path(nodepath=arg, increment=inc, Y=Y, fig=fig, ax=ax)
    tag = dict(labels=ref.labels, nodepath=list(p), increment=inc, Y=Y)
    l = drawn(fig, ax, f, x, others, nf, tag)
    if len(l) != nl + 1:
        raise Violation("more than one curve is drawn", **tag)
    if isinstance(p, tuple) and arg != list(p):
        raise Violation("the list of nodes passed in is changed", **tag)
    gx, gy = l[-1].get_data()
    wy = [value(spec, ref, recs, inc, n, Y) for n in p]
    if not same(gy, wy):
        raise Violation("path plot: the values are not the stored ones", got=gy, want=wy, **tag)
    # where a point sits on a tick, the tick names its node
    if any(b <= a for a, b in zip(gx, gx[1:])):
        raise Violation("path plot: the points are not in the order of the path", got=gx, **tag)
    ticks = list(zip(x.get_xticks(), [t.get_text() for t in x.get_xticklabels()]))
    for u, n in zip(gx, p):
        for t, s in ticks:
            if abs(t - u) < 1e-9 and int(float(s)) != n:
                raise Violation("path plot: a point carries the label of another node", got=s, want=n, **tag)
    o.step()
    o.states.add(h64(tuple(wy), tuple(p)))
    return f, x


def run_path(case, o):
    import matplotlib.pyplot as plt

    _, name, lab, iq, n = case
    spec, M, recs = model(name, lab)
    ref = Ref(spec)
    labs = [l for l, _ in spec["nodes"]]
    kind = 0
    N = len(recs)
    for k, p in enumerate(paths(labs, n)):
        for inc in range(-N, N):
            # long lists of paths: increments take turns
            if len(p) == 3 and len(labs) > 3 and (k + inc) % 5:
                continue
            if len(p) < 3 and len(labs) > 6 and (k + inc) % 7:
                continue
            kind = (kind + 1) % 3
            fig, ax, others = target(kind)
            check_path(o, M, spec, ref, recs, p, inc, Q[iq], fig, ax, others)
            plt.close("all")
    same_records(recs, records(M), 0.0, what="plotting changes the results")
    o.trace()
    o.outcomes.add((name, Q[iq]))


def run_seq(case, o):
    "0,1: history into figure A/B; 2,3: path into A/B; 4: history, own figure; 5: model plot"
    import matplotlib.pyplot as plt

    spec, M, recs = model("two", 1)
    ref = Ref(spec)
    labs = [l for l, _ in spec["nodes"]]
    A = plt.subplots()
    B = plt.subplots()
    want = {0: [], 1: []}
    for k, c in enumerate(case[1]):
        a, b = labs[k % len(labs)], labs[(k + 1) % len(labs)]
        X, Y = Q[k % 3], Q[3 + k % 4]
        if c in (0, 1):
            f, x = M.plot_history(nodes=[a, b], X=X, Y=Y, fig=(A, B)[c][0], ax=(A, B)[c][1])
            want[c].append((curve(ref, recs, a, X, spec), curve(ref, recs, b, Y, spec)))
            if f is not (A, B)[c][0] or x is not (A, B)[c][1]:
                raise Violation("the figure passed in is not the one used", sequence=case[1])
        elif c in (2, 3):
            f, x = M.plot_path(nodepath=[b, a], increment=k, Y=Y, fig=(A, B)[c - 2][0], ax=(A, B)[c - 2][1])
            want[c - 2].append((None, [value(spec, ref, recs, k, n, Y) for n in (b, a)]))
        elif c == 4:
            f, x = M.plot_history(nodes=[a, b], X=X, Y=Y)
            if f in (A[0], B[0]) or len(x.lines) != 1:
                raise Violation("a new plot is drawn into an old figure", sequence=case[1])
        else:
            M.plot_model(inc=k % len(recs), view="xy")
        o.step()
    for i, (f, x) in enumerate((A, B)):
        if len(x.lines) != len(want[i]):
            raise Violation("the figure passed in does not hold the curves drawn into it", got=len(x.lines), want=len(want[i]), sequence=case[1])
        for l, (wx, wy) in zip(x.lines, want[i]):
            gx, gy = l.get_data()
            if (wx is not None and not same(gx, wx)) or not same(gy, wy):
                raise Violation("a curve of a shared figure is wrong", sequence=case[1])
    same_records(recs, records(M), 0.0, what="plotting changes the results")
    o.trace()
    o.state(tuple(case[1]))
    o.outcomes.add(("seq", len(want[0]), len(want[1])))
