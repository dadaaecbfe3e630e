"""Library of small structures (plain specs, see ref.py) used by the run-level checks.

The geometries are generic (no accidental symmetry unless wanted) so that neither
bifurcations nor ties between components hide or fake differences."""

import copy

EL1 = [1.0]
PL = [1.0, 0.1, 0.1]


def _s(nodes, elems, bounds, forces, **st):
    return dict(nodes=nodes, elems=elems, bounds=bounds, forces=forces, set=st)


LIB = {}

# README example: one bar, one free component
LIB["bar1"] = _s(
    [[1, [0, 0, 0]], [2, [1, 0, 0]]],
    [[1, [1, 2], 1, [1.0], 1.0]],
    [[1, [0, 0, 0]], [2, [1, 0, 0]]],
    [[2, [1, 0, 0]]],
    incs=8,
)
# half von Mises truss, one free component
LIB["vm1"] = _s(
    [[1, [0, 0, 0]], [2, [1.0, 0, 0.6]]],
    [[1, [1, 2], 1, [1.0], 1.0]],
    [[1, [0, 0, 0]], [2, [0, 0, 1]]],
    [[2, [0, 0, -1.0]]],
    incs=12, du=0.05, dlpf=0.01,
)
# shallow two-bar truss, unsymmetric, two free components
LIB["vm2"] = _s(
    [[1, [-1.1, 0, 0]], [2, [0.9, 0, 0.1]], [3, [0, 0, 0.55]]],
    [[1, [1, 3], 1, [1.0], 1.0], [2, [3, 2], 1, [1.3], 0.8]],
    [[1, [0, 0, 0]], [2, [0, 0, 0]], [3, [1, 0, 1]]],
    [[3, [0.03, 0, -0.5]]],
    incs=12, du=0.05, dlpf=0.02,
)
# unsymmetric tripod, 3D, three free components
LIB["tripod"] = _s(
    [[1, [1.0, 0.1, 0]], [2, [-0.6, 0.8, 0.05]], [3, [-0.5, -0.9, -0.05]], [4, [0.05, 0, 0.5]]],
    [[1, [1, 4], 1, [1.0], 1.0], [2, [2, 4], 1, [1.2], 0.9], [3, [4, 3], 1, [0.9], 1.1]],
    [[1, [0, 0, 0]], [2, [0, 0, 0]], [3, [0, 0, 0]]],
    [[4, [0.05, -0.02, -0.4]]],
    incs=12, du=0.04, dlpf=0.02,
)
# two free nodes, braced, 3D, stiff enough to stay stable
LIB["frame"] = _s(
    [[1, [0, 0, 0]], [2, [2.0, 0.1, 0]], [3, [0.1, 1.9, 0.2]], [4, [0.6, 0.7, 1.4]], [5, [1.8, 1.2, 1.1]]],
    [
        [1, [1, 4], 1, [1.0], 1.0],
        [2, [2, 4], 1, [1.0], 0.8],
        [3, [3, 4], 1, [1.2], 1.0],
        [4, [4, 5], 1, [0.7], 1.1],
        [5, [2, 5], 1, [1.1], 0.6],
        [6, [5, 3], 1, [0.9], 0.9],
    ],
    [[1, [0, 0, 0]], [2, [0, 0, 0]], [3, [0, 0, 0]], [5, [1, 1, 1]]],
    [[4, [0.2, 0.1, -0.3]], [5, [0.1, -0.25, 0.2]]],
    incs=8, du=0.05, dlpf=0.03,
)
# example NTA (A) of the documentation
LIB["nta"] = _s(
    [[1, [2.5, 0, 0]], [2, [-1.25, 1.25, 0]], [3, [1, 2, 0]], [4, [-0.5, 1.5, 1.5]], [5, [-2.5, 4.5, 2.5]]],
    [
        [1, [1, 4], 1, [1.0], 0.75],
        [2, [2, 4], 1, [1.0], 1.0],
        [3, [3, 4], 1, [1.0], 0.5],
        [4, [3, 5], 1, [1.0], 0.75],
        [5, [2, 5], 1, [1.0], 1.0],
        [6, [4, 5], 1, [1.0], 1.0],
    ],
    [[1, [0, 0, 0]], [2, [0, 0, 0]], [3, [0, 0, 0]], [5, [1, 0, 1]]],
    [[4, [1, 1, -1]], [5, [-2, 0, -2]]],
    incs=12, du=0.05, dlpf=0.005, dxtol=1.25,
)
# chain of elastic-plastic bars under growing load (example 10x shortened)
LIB["chain"] = _s(
    [[1, [0, 0, 0]], [2, [0, 0, -1]], [3, [0, 0, -2]], [4, [0, 0, -3.2]]],
    [
        [1, [1, 2], 2, PL, 1.0],
        [2, [2, 3], 2, PL, 1.0],
        [3, [3, 4], 2, [1.0, 0.2, 0.15], 0.9],
    ],
    [[1, [0, 0, 0]], [2, [0, 0, 1]], [3, [0, 0, 1]], [4, [0, 0, 1]]],
    [[2, [0, 0, -1]], [3, [0, 0, -2]], [4, [0, 0, -3]]],
    incs=12, du=0.05, dlpf=0.05,
)
# plastic and elastic bars side by side between the same nodes, plus a strut
LIB["par"] = _s(
    [[1, [0, 0, 0]], [2, [0, 0.1, 1.0]], [3, [1.0, 0, 0.3]]],
    [
        [1, [1, 2], 2, [1.0, 0.1, 0.05], 1.0],
        [2, [2, 1], 1, [0.5], 1.0],
        [3, [3, 2], 2, [0.8, 0.0, 0.03], 0.7],
    ],
    [[1, [0, 0, 0]], [3, [0, 0, 0]], [2, [1, 0, 1]]],
    [[2, [0.2, 0, 0.7]]],
    incs=12, du=0.03, dlpf=0.05,
)
# plastic unsymmetric frame in the plane
LIB["pframe"] = _s(
    [[1, [0, 0, 0]], [2, [2.0, 0, 0.1]], [3, [0.3, 0, 1.3]], [4, [1.7, 0, 1.1]]],
    [
        [1, [1, 3], 2, [1.0, 0.1, 0.04], 1.0],
        [2, [2, 4], 2, [1.0, 0.1, 0.04], 0.9],
        [3, [3, 4], 2, [1.0, 0.05, 0.06], 1.1],
        [4, [1, 4], 2, [1.2, 0.3, 0.05], 0.8],
        [5, [3, 2], 1, [0.9], 0.7],
    ],
    [[1, [0, 0, 0]], [2, [0, 0, 0]], [3, [1, 0, 1]], [4, [1, 0, 1]]],
    [[3, [0.3, 0, -0.2]], [4, [0.1, 0, -0.3]]],
    incs=12, du=0.04, dlpf=0.05,
)

# two structures side by side which move nearly alike
LIB["twin"] = _s(
    [[1, [0, 0, 0]], [2, [1.0, 0, 0.6]], [3, [0, 3.0, 0]], [4, [1.0, 3.0, 0.6]]],
    [[1, [1, 2], 1, [1.0], 1.0], [2, [3, 4], 1, [1.0], 1.003]],
    [[1, [0, 0, 0]], [2, [0, 0, 1]], [3, [0, 0, 0]], [4, [0, 0, 1]]],
    [[2, [0, 0, -1.0]], [4, [0, 0, -1.0]]],
    incs=12, du=0.04, dlpf=0.05,
)


def _tower(plastic=False, levels=3):
    """braced tower, 12 nodes and 26 bars: labels and counts above nine, nodes with up to
    nine bars; every fourth bar elastic-plastic if asked for. With ten levels: a mast of 40
    nodes with guys between the supports and all levels"""
    X = {}
    tx, ty, stiff = (0.1, 0.07, 1.0) if levels == 3 else (0.04, 0.03, 20.0)
    for lev in range(levels):
        for c, (x, y) in enumerate([(0.0, 0.0), (1.0, 0.05), (1.1, 0.95), (-0.05, 1.05)]):
            l = 4 * lev + c + 1
            X[l] = [
                round(x * (1 - tx * lev) + 0.03 * ((7 * l) % 5 - 2), 3),
                round(y * (1 - ty * lev) + 0.02 * ((3 * l) % 7 - 3), 3),
                round(1.1 * lev + 0.04 * ((5 * l) % 6 - 2), 3),
            ]
    pairs = []
    for lev in range(1, levels):
        b, t = [4 * lev - 3 + c for c in range(4)], [4 * lev + 1 + c for c in range(4)]
        pairs += [(b[c], t[c]) for c in range(4)]
        pairs += [(t[c], t[(c + 1) % 4]) for c in range(4)]
        pairs += [(b[c], t[(c + 1) % 4]) for c in range(4)]
        pairs += [(t[0], t[2])]
        if levels > 3 and lev > 2:
            pairs += [(1 + lev % 4, t[(lev + 1) % 4]), (t[(lev + 3) % 4], 1 + (lev + 2) % 4)]
    elems = []
    for k, (a, b) in enumerate(pairs):
        E, A = stiff * (1.0 + 0.1 * ((3 * k) % 7)), 0.7 + 0.1 * ((5 * k) % 6)
        pl = plastic and k % 4 == 0
        elems.append([k + 1, [a, b] if k % 3 else [b, a], 2 if pl else 1, [E, 0.5 * stiff, 0.012] if pl else [E], round(A, 2)])
    return _s(
        [[l, X[l]] for l in X],
        elems,
        [[l, [0, 0, 0]] for l in (1, 2, 3, 4)],
        [[4 * levels - 3, [0.02, 0.05, -0.2]], [4 * levels - 2, [0.03, -0.02, -0.25]], [4 * levels - 1, [0.05, 0.02, -0.1]], [4 * levels, [0.0, 0.03, -0.15]]],
        incs=6, du=0.04, dlpf=0.05,
    )


LIB["tower"] = _tower()
LIB["ptower"] = _tower(True)
LIB["mast"] = _tower(False, 10)
LIB["pmast"] = _tower(True, 10)


def S(name, **st):
    s = copy.deepcopy(LIB[name])
    s["set"].update(st)
    return s


def steps(spec, facs):
    """turn a one-step spec into a multi-step one: step k applies facs[k] times the
    load (facs[k] may be a dict node -> force to use another load pattern)"""
    s = copy.deepcopy(spec)
    labs = [l for l, _ in s["forces"]]
    extra = [l for f in facs if isinstance(f, dict) for l in f if l not in labs]
    base = dict((l, list(f[:3])) for l, f in s["forces"])
    out = []
    for l in labs + list(dict.fromkeys(extra)):
        row = []
        for f in facs:
            if isinstance(f, dict):
                row += list(f.get(l, [0.0, 0.0, 0.0]))
            else:
                row += [f * v for v in base.get(l, [0.0, 0.0, 0.0])]
        out.append([l, row])
    s["forces"] = out
    s["set"]["nsteps"] = len(facs)
    return s


def relabel(spec, nmap=None, emap=None):
    s = copy.deepcopy(spec)
    n = (lambda l: nmap.get(l, l)) if nmap else (lambda l: l)
    e = (lambda l: emap.get(l, l)) if emap else (lambda l: l)
    s["nodes"] = [[n(l), X] for l, X in s["nodes"]]
    s["elems"] = [[e(l), [n(a), n(b)], mt, mp, A] for l, (a, b), mt, mp, A in s["elems"]]
    s["bounds"] = [[n(l), v] for l, v in s["bounds"]]
    s["forces"] = [[n(l), v] for l, v in s["forces"]]
    return s


def permute(spec, pn=None, pe=None, pb=None, pf=None):
    "reorder the definition (each p is a permutation of indices)"
    s = copy.deepcopy(spec)
    for k, p in (("nodes", pn), ("elems", pe), ("bounds", pb), ("forces", pf)):
        if p is not None:
            s[k] = [s[k][i] for i in p]
    return s
