"""C16: explicit-state search over operation sequences on the model tables, in lock step
with a dictionary reference; after every operation every label is looked up."""
import copy
import itertools

import numpy as np

from mc.core import Outcome, Violation, h64

PROPERTY = "C16"
RULE = (
    "state = complete content of the table (values, order, dtype), transition = one "
    "add/assign/delete operation in single, list or object form; states are explored "
    "breadth first to the depth, each once per first operation"
)
ASSUMPTIONS = [
    "labels are unique when added; property lists of added elements have the width of "
    "the table (shorter and longer lists go through assign_material)",
]
BOUND = {
    "quick": "nodes, supports, loads: 3 labels, depth 5; elements: 3 labels, 39 operations with lists and arrays, depth 4; a second alphabet (label 0, label above 32 bits, values of 17 digits from 1e-17 to 1e15) to depth 3; tables of 14 to 67 rows, all sequences of 2 operations",
    "thorough": "nodes, supports, loads: 3 labels, depth 7; elements: depth 5; second alphabet to depth 4; tables of 14 to 67 rows, all sequences of 3 operations",
}
CHUNK = 1
# the large ones are not representable in single precision
LABS = [5, 2, 16777217]
# second alphabet: label zero, a label beyond 32 bits, values of many digits and far apart
LABS2 = [0, 11, 2**40 + 1]


# ------------------------------------------------------------------ simple tables
def table_ops(kind, LABS=LABS):
    vals = {
        "nodes": [(1, 2, 3), (0.5, -1.25, 4.0), [0.1, 0.2, 0.3]],
        "bounds": [(0, 1, 0), [1, 1, 1], (0, 0, 0)],
        "forces": [(1, -2, 3), [0.5, 0.25, -0.125], (0.1, 0, 7)],
    }[kind]
    if LABS[0] == 0 and kind != "bounds":
        vals = [(1 / 3, -1e-9, 123456.789), [1e15 + 0.5, 7e-17, -2 / 7], (0, 1e-300, -98765432.1)]
    ops = []
    for l in LABS:
        for i, v in enumerate(vals):
            for form in ("single", "object", "list", "kw", "array"):
                if (form in ("list", "kw")) and i == 2 or form == "array" and i == 0:
                    continue
                ops.append(("add", l, v, form))
        ops.append(("del", l))
    for a, b in itertools.permutations(LABS, 2):
        ops.append(("add2", a, vals[0], b, vals[1]))
    return ops


def table_apply(tp, kind, H, ref, op):
    add1, addn, dele, cls, kw = {
        "nodes": (H.add_node, H.add_nodes, H.del_node, tp.Node, "coord") if kind == "nodes" else (None,) * 5,
        "bounds": (H.add_bound_U, H.add_bounds_U, H.del_bound_U, tp.BoundaryU, "values") if kind == "bounds" else (None,) * 5,
        "forces": (H.add_force, H.add_forces, H.del_force, tp.ExternalForce, "force") if kind == "forces" else (None,) * 5,
    }[kind]
    if op[0] == "add":
        _, l, v, form = op
        if l in ref:
            return False
        keep = copy.deepcopy(v)
        if form == "single":
            add1(l, v)
        elif form == "kw":
            add1(l, **{kw: v})
        elif form == "array":
            a = np.array(v)
            add1(np.int64(l), a)
            if not np.array_equal(a, np.array(v)):
                raise Violation("array of the caller is changed", op=op)
            a *= 0
        elif form == "object":
            ob = cls(l, v)
            add1(ob)
            w = np.array(getattr(ob, kw))
            if not np.array_equal(w, np.array(v, float)):
                raise Violation("added object is changed", op=op)
        else:
            addn([cls(l, v)])
        if v != keep:
            raise Violation("argument of the caller is changed", op=op)
        ref[l] = tuple(float(x) for x in v)
    elif op[0] == "add2":
        _, a, va, b, vb = op
        if a in ref or b in ref:
            return False
        lst = [cls(a, va), cls(b, vb)]
        addn(lst)
        if len(lst) != 2:
            raise Violation("list of the caller is changed", op=op)
        ref[a], ref[b] = tuple(map(float, va)), tuple(map(float, vb))
    elif op[0] == "many":
        rows = many(*op[1:])
        if rows[0][0] in ref:
            return False
        addn([cls(l, v) for l, v in rows])
        ref.update(rows)
    else:
        if op[1] not in ref:
            return False
        dele(op[1])
        del ref[op[1]]
    return True


def table_look(kind, H, ref, op):
    lab, val = {
        "nodes": lambda: (H.labels, H.coords),
        "bounds": lambda: (H.Unodes, H.Uvalues),
        "forces": lambda: (H.nodes, H.forces),
    }[kind]()
    if lab is None:
        if ref:
            raise Violation("table is empty", op=op)
        return
    lab = np.asarray(lab)
    if sorted(int(l) for l in lab) != sorted(ref):
        raise Violation("labels in the table are wrong", got=lab, want=sorted(ref), op=op)
    if ref and np.asarray(val).shape != (len(ref), 3):
        raise Violation("table has the wrong shape", got=np.asarray(val).shape, op=op)
    for l, v in ref.items():
        got = tuple(float(x) for x in np.asarray(val)[np.where(lab == l)][0])
        if got != v:
            raise Violation("looking up a label does not give what was defined", label=l, got=got, want=v, op=op)


# ------------------------------------------------------------------ elements
PROP = {
    1: [[2], [0.75], [1.5]],
    3: [[2, 1, 3], [0.75, 0.25, 0.5], [1.5, 0, 2.5]],
}
PROP2 = {
    1: [[210000.1], [1 / 3], [1e-9]],
    3: [[210000.1, 1 / 3, 1e-12], [1 / 7, 1e15 + 0.5, 235.00000001], [1e-9, 0, 2.5]],
}


def elem_ops(LABS=LABS):
    if LABS[0] == 0:
        return elem_ops2(LABS)
    ops = []
    for i, l in enumerate(LABS):
        for w in (1, 3):
            ops.append(("add", l, [3, 7], 1, 1 + (i % 2), PROP[w][0], [2], "single"))
            ops.append(("add", l, [16777219, 11 + i], 1, 2 - (i % 2), PROP[w][1], [0.5], "object"))
        ops.append(("add", l, (4, 3), 2, 1, None, None, "list"))
        ops.append(("del", l))
        ops.append(("mat", [l], [0.3 + i], None))
        ops.append(("geo", [l], [0.125 * (i + 1)]))
        ops.append(("mtype", [l], 2 - i % 2))
    ops.append(("mat", "all", [0.5, 0.2, 0.1], 2))
    ops.append(("mat", "all", [0.7], None))
    ops.append(("mat", [LABS[0], LABS[2]], [4, 1, 2], 1))
    ops.append(("geo", "all", [0.5]))
    ops.append(("geo", [LABS[2], LABS[0]], [3]))
    ops.append(("geos", [LABS[1], LABS[0]], [[0.6], [0.7]]))
    ops.append(("geos", "all", [[0.15], [0.25], [0.35]]))
    ops.append(("mtype", "all", 1))
    ops.append(("etype", "all", 1))
    ops.append(("etype", [LABS[1]], 2))
    # the same with arrays
    l = LABS[1]
    ops.append(("arr", ("add", l, [3, 7], 1, 2, PROP[3][0], [2], "single")))
    ops.append(("arr", ("add", l, [16777219, 12], 1, 1, PROP[3][1], [0.5], "object")))
    ops.append(("arr", ("mat", [LABS[2], LABS[0]], [0.4, 0.3], 2)))
    ops.append(("arr", ("geo", [LABS[0], l], [0.45])))
    ops.append(("arr", ("geos", [l, LABS[2]], [[0.55], [0.65]])))
    ops.append(("arr", ("mtype", [LABS[0], l], 2)))
    ops.append(("arr", ("etype", [l, LABS[0]], 2)))
    return ops


def elem_ops2(LABS):
    ops = []
    for i, l in enumerate(LABS):
        ops.append(("add", l, [0, 2**40 + 1], 1, 1 + (i % 2), PROP2[3][0], [1 / 3], "single"))
        ops.append(("add", l, (2**40 + 1, 0), 1, 2, PROP2[3][1], [7e-5 / 3], "object"))
        ops.append(("add", l, [11, 0], 1, 1, PROP2[1][i], [1234567.89], "object"))
        ops.append(("del", l))
        ops.append(("mat", [l], PROP2[1][1], None))
        ops.append(("geo", [l], [1e-8 / 3]))
        ops.append(("mtype", [l], 2))
        ops.append(("etype", [l], 2))
    ops.append(("mat", "all", PROP2[3][2], 1))
    ops.append(("geo", "all", [1e9 / 7]))
    ops.append(("geos", "all", [[1 / 3], [1 / 7], [1e-7 / 3]]))
    return ops


def big_ops(kind):
    "operations on a table of fourteen rows (labels 3, 6, ... in a scrambled order)"
    ops = [("many", kind, 100, 40), ("many", kind, 1000, 13)]
    for l in (3, 24, 42):
        ops.append(("del", l))
        if kind == "elems":
            ops.append(("mat", [l], [0.3, 0.2], 2))
            ops.append(("geo", [l], [0.7]))
            ops.append(("add", l, [1, 2], 1, 1, [2, 3, 4], [5], "single"))
        else:
            ops.append(("add", l, (0, 1, 1), "single"))
    if kind == "elems":
        L = [3 * ((5 * k) % 14 + 1) for k in range(14)]
        ops += [
            ("mat", "all", [0.5, 0.2, 0.1], 2),
            ("mat", L[3:13], [9, 8, 7], 1),
            ("mat", "all", [0.6], None),
            ("mat", L[2:11], [0.9, 0.8], None),
            ("geo", "all", [0.25]),
            ("geo", L[::-1][2:], [0.35]),
            ("geos", "all", [[0.01 * k + 0.1] for k in range(14)]),
            ("geos", L[2:12], [[0.02 * k + 0.3] for k in range(10)]),
            ("mtype", "all", 2),
            ("mtype", L[:11], 2),
            ("etype", "all", 2),
            ("etype", L[1:12], 2),
        ]
    return ops


def many(kind, base, n):
    "labels and contents of many new rows"
    out = []
    for k in range(n):
        l = base + 7 * ((11 * k) % n)
        if kind == "elems":
            out.append((l, [l + 2, l + 1], 1, 1 + (k % 3 == 0), None, None))
        else:
            out.append((l, tuple(float(x) for x in ((k % 2, k % 5 != 0, 0) if kind == "bounds" else (-0.5 * k, 2.25 * k, 1 / (k + 1))))))
    return out


def big_start(tp, kind, H, ref):
    for k in range(14):
        l = 3 * ((5 * k) % 14 + 1)
        if kind == "elems":
            elem_apply(tp, H, ref, ("add", l, [l, l + 1], 1, 1 + k % 2, [1.0 + k, 0.5, 0.25 * k], [0.1 * (k + 1)], "single"))
        else:
            v = (k % 2, k % 3 != 0, 1) if kind == "bounds" else (1.5 * k, -0.25 * k, k / 3)
            table_apply(tp, kind, H, ref, ("add", l, tuple(float(x) for x in v), "single"))


def same(x):
    return x


class Arrays:
    "lists of an operation given as arrays"

    def __init__(self):
        self.given = []

    def __call__(self, x):
        if not isinstance(x, (list, tuple)):
            return x
        a = np.array(x)
        self.given.append((a, a.copy()))
        return a

    def check(self, op):
        if any(a.dtype != b.dtype or not np.array_equal(a, b) for a, b in self.given):
            raise Violation("array of the caller is changed", op=op)


def elem_apply(tp, H, ref, op, c=same):
    k = op[0]
    if k == "arr":
        c = Arrays()
        done = elem_apply(tp, H, ref, op[1], c)
        c.check(op)
        # an array given before is not part of the table
        for a, _ in c.given:
            a *= 0
        return done
    width = H.material_properties.shape[1] if H.labels is not None else None
    if k == "add":
        _, l, conn, et, mt, mp, gp, form = op
        if l in ref:
            return False
        if width is not None and width != (1 if mp is None else len(mp)):
            return False
        kw = dict(elem_type=et, mat_type=mt)
        keep = (copy.deepcopy(conn), copy.deepcopy(mp), copy.deepcopy(gp))
        if form == "single":
            H.add_element(l, c(conn), mprop=c(mp), gprop=c(gp), **kw)
        elif form == "object":
            ob = tp.Element(l, c(conn), material_properties=c(mp), geometric_properties=c(gp), **kw)
            H.add_element(ob)
            if list(ob.material_properties) != mp or list(ob.geometric_properties) != gp:
                raise Violation("added object is changed", op=op)
        else:
            H.add_elements([tp.Element(l, conn, et, mt)])
        if keep != (conn, mp, gp):
            raise Violation("argument of the caller is changed", op=op)
        ref[l] = [tuple(conn), et, mt, None if mp is None else [float(v) for v in mp], None if gp is None else [float(v) for v in gp]]
        return True
    if k == "many":
        rows = many(*op[1:])
        if rows[0][0] in ref:
            return False
        w = width or 3
        rows = [(l, c, e, m, [1.5 + l + i for i in range(w)], [0.125 * l]) for l, c, e, m, _, _ in rows]
        H.add_elements([tp.Element(l, c, e, m, p, g) for l, c, e, m, p, g in rows])
        for l, c, e, m, p, g in rows:
            ref[l] = [tuple(c), e, m, p, g]
        return True
    if k == "del":
        if op[1] not in ref:
            return False
        H.del_element(op[1])
        del ref[op[1]]
        return True
    labels = op[1]
    if H.labels is None or not ref:
        return False
    todo = list(H.labels) if labels == "all" else labels
    if any(l not in ref for l in todo):
        return False
    keep = copy.deepcopy(op)
    if k == "mat":
        H.assign_material(c(labels), c(op[2]), *([] if op[3] is None else [op[3]]))
        for l in todo:
            ref[int(l)][3] = [float(v) for v in op[2]]
            if op[3] is not None:
                ref[int(l)][2] = op[3]
    elif k == "geo":
        H.assign_geometry(c(labels), c(op[2]))
        for l in todo:
            ref[int(l)][4] = [float(v) for v in op[2]]
    elif k == "geos":
        if len(op[2]) != len(todo):
            return False
        H.assign_geometries(c(labels), c(op[2]))
        for l, g in zip(todo, op[2]):
            ref[int(l)][4] = [float(v) for v in g]
    elif k == "mtype":
        H.assign_mtype(c(labels), c(op[2]))
        for l in todo:
            ref[int(l)][2] = op[2]
    elif k == "etype":
        H.assign_etype(c(labels), c(op[2]))
        for l in todo:
            ref[int(l)][1] = op[2]
    if keep != op:
        raise Violation("argument of the caller is changed", op=keep)
    return True


def elem_look(H, ref, op):
    if H.labels is None:
        if ref:
            raise Violation("table is empty", op=op)
        return
    if sorted(int(l) for l in H.labels) != sorted(ref):
        raise Violation("labels in the table are wrong", got=H.labels, want=sorted(ref), op=op)
    for l, (conn, et, mt, mp, gp) in ref.items():
        if tuple(int(v) for v in H.get_nodes(l)) != tuple(conn) or int(H.NA(l)) != conn[0] or int(H.NE(l)) != conn[1]:
            raise Violation("connectivity is wrong", label=l, got=H.get_nodes(l), want=conn, op=op)
        if int(H.get_element_type(l)) != et:
            raise Violation("element type is wrong", label=l, got=H.get_element_type(l), want=et, op=op)
        if int(H.get_material_type(l)) != mt:
            raise Violation("material type is wrong", label=l, got=H.get_material_type(l), want=mt, op=op)
        g = [float(v) for v in np.ravel(H.get_material_properties(l))]
        if mp is None:
            if not np.isnan(g[0]):
                raise Violation("undefined material parameter got a value", label=l, got=g, op=op)
        elif g[: len(mp)] != mp or any(v != 0 for v in g[len(mp) :]):
            raise Violation("material parameters are wrong", label=l, got=g, want=mp, op=op)
        g = [float(v) for v in np.ravel(H.get_geometric_properties(l))]
        if gp is None:
            if not np.isnan(g[0]):
                raise Violation("undefined area got a value", label=l, got=g, op=op)
        elif g != gp:
            raise Violation("area is wrong", label=l, got=g, want=gp, op=op)


# ------------------------------------------------------------------ search
def canon(H):
    out = []
    for k in sorted(vars(H)):
        v = getattr(H, k)
        if isinstance(v, np.ndarray):
            out.append((k, str(v.dtype), v.shape, repr(v.tolist())))
    return h64(out)


KINDS = ("nodes", "bounds", "forces", "elems")


def ops_of(kind, alpha=0):
    if alpha == 2:
        return big_ops(kind)
    L = LABS2 if alpha else LABS
    return elem_ops(L) if kind == "elems" else table_ops(kind, L)


def cases(tier):
    q = tier == "quick"
    for kind in KINDS:
        depth = (4 if q else 5) if kind == "elems" else (5 if q else 7)
        for i in range(len(ops_of(kind))):
            if kind != "elems":
                yield [kind, [i], depth]
            else:
                for j in range(len(ops_of(kind))):
                    yield [kind, [i, j], depth]
        for i in range(len(ops_of(kind, 1))):
            yield [kind, [i], 3 if q else 4, 1]
        for i in range(len(ops_of(kind, 2))):
            yield [kind, [i], 2 if q else 3, 2]


def run(case):
    import trusspy as tp

    kind, first, depth = case[:3]
    alpha = case[3] if len(case) > 3 else 0
    ops = ops_of(kind, alpha)
    M = tp.Model(log=0)
    H = {"nodes": M.Nodes, "bounds": M.Boundaries, "forces": M.ExtForces, "elems": M.Elements}[kind]
    o = Outcome()
    ref = {}
    apply_ = (lambda H, r, op: elem_apply(tp, H, r, op)) if kind == "elems" else (lambda H, r, op: table_apply(tp, kind, H, r, op))
    look = (lambda H, r, op: elem_look(H, r, op)) if kind == "elems" else (lambda H, r, op: table_look(kind, H, r, op))
    if alpha == 2:
        big_start(tp, kind, H, ref)
        look(H, ref, ["fourteen rows"])
    hist = []
    for i in first:
        op = copy.deepcopy(ops[i])
        if not apply_(H, ref, op):
            o.trace()
            return o
        hist.append(op)
        look(H, ref, hist)
        o.step()
    seen = {canon(H)}
    frontier = [(H, ref, hist)]
    for d in range(len(first), depth):
        nxt = []
        for H, ref, hist in frontier:
            for op in ops:
                H2, r2, op2 = copy.deepcopy(H), copy.deepcopy(ref), copy.deepcopy(op)
                if not apply_(H2, r2, op2):
                    continue
                o.step()
                look(H2, r2, hist + [op2])
                c = canon(H2)
                if c in seen:
                    continue
                seen.add(c)
                nxt.append((H2, r2, hist + [op2]))
        frontier = nxt
    o.trace(len(seen))
    o.states |= seen
    o.outcomes.add((kind, alpha, first[0]))
    o.sample = dict(case=case, operations=repr(hist), states=len(seen))
    return o
