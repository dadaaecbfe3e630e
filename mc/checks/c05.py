"""C05: every reordering / relabelling of the enumerated groups is executed and compared
with the run of the original definition, node by node and element by element."""
import functools
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import close
from mc.runs import execute, records
from mc.structures import S, permute, relabel, steps

PROPERTY = "C05"
RULE = (
    "one case = structure x settings x one member of a permutation group acting on the "
    "definition (entry order of nodes, elements, supports, loads; relabelling of nodes, "
    "of elements; reversal of element ends; products of these); it is executed and "
    "compared with the untransformed run: one validated trace of as many transitions as "
    "increments"
)
ASSUMPTIONS = [
    "no two components tie for the control component; with yielding "
    "elements adaptive step control is off, no overshoot is allowed and no step unloads (at the start of an increment such an element "
    "sits exactly on the yield limit, so rounding decides the predictor's tangent and with "
    "it the predicted control component, the iteration count and the failed attempts)",
    "agreement to 1e-7 relative (different summation order only)",
]
BOUND = {
    "quick": "7 structures (3-5 nodes, 2-6 elements) x 2 settings; full symmetric group for node order, node labels (jointly for 5 nodes), support order, load order, end reversal; element order/labels up to 5 elements; full products for the 3-node structures; 2 towers of 12 nodes and 26 elements x generators of the groups (neighbours swapped, reversed, shifted); labels beyond 16, 24, 31 and 53 bits; structure(s) of 40 nodes and 131 bars",
    "thorough": "same with 6-element groups (720), node order x node label products for 3- and 4-node structures, 3 settings; 2 towers of 12 nodes and 26 elements x generators of the groups; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 12
NAMES = ["vm2", "par", "tripod", "pframe", "frame", "nta", "twin"]
SETS = [
    ((1,), dict(incs=4)),
    ((1, -0.7), dict(incs=3, stepcontrol=True, dxtol=1.25, maxfac=4)),
    ((1, 0.5), dict(incs=5, stepcontrol=True, nfev=4, j_pre=False)),
]
NL = [3, 11, 5, 40, 27, 8]  # non-consecutive, not monotone
EL = [9, 2, 31, 17, 4, 100]


# beyond 16, 24, 31, 32 and 53 bits, neighbours included
WIDE = [40000, 2**31 + 5, 16777217, 2**33 + 1, 7, 2**31 - 1, 16777218, 2**53 + 3, 65536, 32768, 2**31, 2**33 + 2]


def label(L, i):
    "new label of entry i: not consecutive, not monotone, all different"
    return L[i] if i < len(L) else 101 + (7 * i) % 131


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


PLASTIC = ("par", "pframe", "chain", "ptower")


def case_spec(name, k):
    pat, st = SETS[k]
    if name in PLASTIC:
        st = dict(st, stepcontrol=False, nfev=8, dxtol=1.000001)
        pat = [abs(v) for v in pat]
    return steps(S(name, **st), pat)


def transpositions(n):
    "generators: neighbours swapped, everything reversed, everything shifted"
    for i in range(n - 1):
        p = list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
        yield p
    yield list(range(n))[::-1]
    for c in range(1, n, 3):
        yield [(i + c) % n for i in range(n)]


def big_cases(tier):
    for k in range(2 if tier == "quick" else 3):
        for name in ("tower", "ptower"):
            if tier == "quick" and k == 1 and name == "tower":
                continue
            s = S(name)
            nn, ne, nb, nf = (len(s[x]) for x in ("nodes", "elems", "bounds", "forces"))
            for p in transpositions(nn):
                yield [name, k, dict(pn=p)]
                yield [name, k, dict(ln=p)]
            for p in transpositions(ne):
                if tier == "quick" and p[0] == 0 and (p[1] + p.index(ne - 1)) % 2:
                    continue
                yield [name, k, dict(pe=p)]
                yield [name, k, dict(le=p)]
            for i in range(0, ne, 3 if tier == "quick" else 1):
                yield [name, k, dict(sw=(5 << i) % 2**ne)]
            for p in transpositions(nf):
                yield [name, k, dict(pf=p, pb=p[::-1])]


def mast_cases(tier):
    "40 nodes, 131 bars: reversed, shifted, two swapped"
    s = S("mast")
    nn, ne, nb = (len(s[x]) for x in ("nodes", "elems", "bounds"))
    shift = lambda n, c: [(i + c) % n for i in range(n)]
    for k in range(1 if tier == "quick" else 2):
        yield ["mast", k, dict(pn=shift(nn, 40)[::-1], le=shift(ne, 77))]
        yield ["mast", k, dict(ln=shift(nn, 7), pe=shift(ne, 131)[::-1])]
        yield ["mast", k, dict(ln=[(7 * i) % 40 for i in range(nn)], sw=(5 << 64) + 1)]
        yield ["mast", k, dict(pn=[(11 * i) % 40 for i in range(nn)], pe=[(10 * i) % 131 for i in range(ne)], pf=[2, 0, 3, 1])]


def cases(tier):
    yield from big_cases(tier)
    yield from mast_cases(tier)
    for name in NAMES + ["tower"]:
        s = S(name)
        for c in range(12):
            if c % 2 == 0 or tier != "quick":
                yield [name, 0, dict(wn=c, we=(5 * c + 1) % 12, pn=[(i + c) % len(s["nodes"]) for i in range(len(s["nodes"]))])]
    for k in range(2 if tier == "quick" else 3):
        for name in NAMES:
            s = S(name)
            nn, ne, nb, nf = (len(s[x]) for x in ("nodes", "elems", "bounds", "forces"))
            big = tier == "thorough"
            for p in perms(nn):
                if nn < 5 or big:
                    yield [name, k, dict(pn=p)]
                    yield [name, k, dict(ln=p)]
                else:
                    # entry order and labels permuted together, so that the label
                    # order and the entry order of the nodes are both all 120
                    yield [name, k, dict(pn=p, ln=p[::-1])]
            if ne <= 5 or big:
                for p in perms(ne):
                    yield [name, k, dict(pe=p)]
                    yield [name, k, dict(le=p)]
            else:
                for p in perms(ne)[:: 31]:
                    yield [name, k, dict(pe=p, le=p[::-1])]
            for p in perms(nb):
                for q in perms(nf):
                    yield [name, k, dict(pb=p, pf=q)]
            for m in range(2**ne) if ne < 6 or big else [0, 1, 2, 4, 8, 16, 32, 63, 21, 42]:
                yield [name, k, dict(sw=m)]
            if nn == 3 or (big and nn == 4):
                for p in perms(nn):
                    for q in perms(nn):
                        for r in perms(nb) if nn == 3 else [list(range(nb))]:
                            yield [name, k, dict(pn=p, ln=q, pb=r)]
            # everything at once, cyclic
            for c in range(nn):
                yield [
                    name,
                    k,
                    dict(
                        pn=[(i * 1 + c) % nn for i in range(nn)],
                        ln=[(i + 2 * c) % nn for i in range(nn)],
                        pe=[(i + c) % ne for i in range(ne)],
                        le=[(i + c) % ne for i in range(ne)][::-1],
                        pb=list(range(nb))[::-1],
                        sw=c,
                    ),
                ]


@functools.lru_cache(None)
def base(name, k):
    import trusspy as tp

    spec = case_spec(name, k)
    M, _ = execute(tp, spec)
    return view(M, spec, lambda l: l, lambda l: l)


def view(M, spec, nm, em):
    "records re-indexed by the original labels, in a fixed order"
    nl = [l for l, _ in S_nodes(spec)]
    out = []
    labs = list(np.ravel(M.Nodes.labels))
    elabs = list(np.ravel(M.Elements.labels))
    for r in records(M):
        d = dict(lpf=r["lpf"], step=r["step"], nodes={}, elems={})
        for i, l in enumerate(labs):
            d["nodes"][nm(int(l))] = [r["U"][i], r["U0"][i], r["r"][i], r["fc"][i]]
        for i, l in enumerate(elabs):
            d["elems"][em(int(l))] = [
                r["stretch"][i],
                r["element_stress"][i],
                r["element_force"][i],
            ] + ([] if r["state_v"] is None else list(r["state_v"][i]))
        out.append(d)
    return out


def S_nodes(spec):
    return spec["nodes"]


def run(case):
    import trusspy as tp

    name, k, t = case
    o = Outcome()
    want = base(name, k)
    spec = case_spec(name, k)
    nl = [l for l, _ in spec["nodes"]]
    el = [e[0] for e in spec["elems"]]
    nmap = {l: l for l in nl}
    emap = {l: l for l in el}
    if "ln" in t:
        nmap = {l: label(NL, t["ln"][i]) for i, l in enumerate(nl)}
    if "le" in t:
        emap = {l: label(EL, t["le"][i]) for i, l in enumerate(el)}
    if "wn" in t:
        nmap = {l: WIDE[(i + t["wn"]) % 12] for i, l in enumerate(nl)}
        emap = {l: WIDE[(i + t["we"]) % 12] + i // 12 * 100 for i, l in enumerate(el)}
        assert len(set(emap.values())) == len(el)
    for i, e in enumerate(spec["elems"]):
        if t.get("sw", 0) >> i & 1:
            e[1] = e[1][::-1]
    spec = relabel(spec, nmap, emap)
    spec = permute(spec, t.get("pn"), t.get("pe"), t.get("pb"), t.get("pf"))
    ni = {v: k_ for k_, v in nmap.items()}
    ei = {v: k_ for k_, v in emap.items()}
    M, _ = execute(tp, spec)
    got = view(M, spec, lambda l: ni[l], lambda l: ei[l])
    if len(got) != len(want):
        raise Violation("number of increments changed", got=len(got), want=len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if g["step"] != w["step"] or not close(g["lpf"], w["lpf"], 1e-7):
            raise Violation("load factor changed", increment=i, got=g["lpf"], want=w["lpf"])
        for l in w["nodes"]:
            if not close(g["nodes"][l], w["nodes"][l], 1e-7):
                raise Violation("node result changed", increment=i, node=l, got=g["nodes"][l], want=w["nodes"][l])
        for l in w["elems"]:
            if not close(np.ravel(np.concatenate([np.ravel(x) for x in g["elems"][l]])), np.ravel(np.concatenate([np.ravel(x) for x in w["elems"][l]])), 1e-7):
                raise Violation("element result changed", increment=i, element=l, got=g["elems"][l], want=w["elems"][l])
        o.step()
        o.state(name, k, sorted(t.items()), i)
    o.trace()
    o.outcomes.add((name, k, len(got)))
    o.sample = dict(case=case, increments=len(got) - 1)
    return o
