"""Reading matplotlib figures back: which points, bars, arrows and colours are drawn."""

import math

import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_hex, to_rgba
from matplotlib.patches import FancyArrow, FancyArrowPatch

VIEWS = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}


def visible(a):
    return a.get_visible() and a.get_alpha() != 0


def points2(ax):
    "marked points (n,2)"
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection) and visible(c):
            out += [tuple(map(float, p)) for p in np.ma.getdata(c.get_offsets())]
    for l in ax.lines:
        if visible(l) and l.get_marker() not in (None, "None", "", " "):
            out += list(zip(*[map(float, v) for v in l.get_data()]))
    return out


def bars2(ax):
    "straight lines drawn: [((x0,y0),(x1,y1)), colour, zorder, index]"
    out = []
    for k, l in enumerate(ax.lines):
        if visible(l) and l.get_linestyle() not in ("None", "", " ") and l.get_linewidth() > 0:
            x, y = (np.asarray(v, float) for v in l.get_data())
            for i in range(len(x) - 1):
                out.append((((x[i], y[i]), (x[i + 1], y[i + 1])), to_hex(l.get_color(), True), l.get_zorder(), k))
    for k, c in enumerate(ax.collections):
        if isinstance(c, LineCollection) and visible(c):
            cols = c.get_colors()
            for i, s in enumerate(c.get_segments()):
                out.append(((tuple(s[0]), tuple(s[-1])), to_hex(cols[i % len(cols)], True), c.get_zorder(), 1000 + k))
    return out


def arrows2(ax):
    "[(base, tip)]"
    out = []
    for p in ax.patches:
        if isinstance(p, FancyArrow) and visible(p):
            v = p.get_xy()
            out.append((tuple((v[3] + v[4]) / 2), tuple(v[0])))
        elif isinstance(p, FancyArrowPatch) and visible(p):
            a, b = p._posA_posB
            out.append((tuple(a), tuple(b)))
    return out


def points3(ax):
    out = []
    for l in ax.lines:
        if visible(l) and l.get_marker() not in (None, "None", "", " "):
            out += [tuple(map(float, p)) for p in zip(*l.get_data_3d())]
    for c in ax.collections:
        if isinstance(c, PathCollection) and visible(c) and hasattr(c, "_offsets3d"):
            out += [tuple(map(float, p)) for p in zip(*[np.ma.getdata(v) for v in c._offsets3d])]
    return out


def bars3(ax):
    out = []
    for k, l in enumerate(ax.lines):
        if visible(l) and l.get_linestyle() not in ("None", "", " ") and l.get_linewidth() > 0 and l.get_marker() in (None, "None", "", " "):
            P = np.array(l.get_data_3d(), float).T
            for i in range(len(P) - 1):
                out.append(((tuple(P[i]), tuple(P[i + 1])), to_hex(l.get_color(), True), l.get_zorder(), k))
    return out


def arrows3(ax):
    "projected arrows after drawing [(base, tip, colour)]"
    out = []
    seen = set()
    for p in list(ax.get_children()):
        if isinstance(p, FancyArrowPatch) and visible(p) and id(p) not in seen:
            seen.add(id(p))
            a, b = p._posA_posB
            out.append((tuple(map(float, a)), tuple(map(float, b)), to_hex(p.get_facecolor(), True)))
    return out


def colorbar(fig):
    "(vmin, vmax, to_rgba) of the colour bar of a figure, or None"
    for a in fig.axes:
        cb = getattr(a, "_colorbar", None)
        if cb is not None:
            return cb.vmin, cb.vmax, cb.mappable
    return None


def near(p, q, tol=1e-9):
    return all(math.isclose(a, b, rel_tol=tol, abs_tol=tol) for a, b in zip(p, q))


def match(want, got, same):
    "one-to-one matching (greedy, items are geometric): (missing, surplus)"
    got = list(got)
    missing = []
    for w in want:
        for k, g in enumerate(got):
            if same(w, g):
                del got[k]
                break
        else:
            missing.append(w)
    return missing, got
