"""C15: all histories of build / run / plot / evaluate / edit operations on one model, and
all interleavings of two models in one process (operation by operation, and switched in
the middle of a run with a bounded number of preemptions), against a freshly defined
model of the same definition and settings."""
import copy
import functools
import itertools
import json
import threading

import numpy as np

from mc.core import Outcome, Violation, h64
from mc.ref import apply_settings, clone, define, tup
from mc.runs import execute, records, same_records
from mc.structures import S, steps

PROPERTY = "C15"
RULE = (
    "part hist: one case = all operation sequences with a given prefix; a transition is "
    "one operation on the model, a state (definition, settings, phase of the model); every "
    "sequence ends with build+run (or run, if built) and is compared with a fresh model. "
    "part pair: one case = one interleaving of the operations of two models. part sched: "
    "one case = one schedule of two concurrent runs with at most 2 preemptions at "
    "evaluation calls"
)
ASSUMPTIONS = [
    "settings filled in by build itself (nstatev) and defaults added for undefined "
    "supports and loads are not part of the user's definition",
    "a run is preceded by a build after the definition was edited or a run was made",
]
BOUND = {
    "quick": "hist: all sequences of length <= 3 over 23 operations on 2 models; args: 2 models x 140 plot calls and 5 movies with objects of the user as arguments; pair: all interleavings of two 4-operation programs for 4 ordered pairs of models; sched: all schedules with <= 1 preemption (all positions) and <= 2 preemptions (stride 3)",
    "thorough": "hist: length <= 3 on 3 models, length 4 over 14 operations; args: 3 models x 140 plot calls and 5 movies; pair: all interleavings of two 5-operation programs for all ordered pairs; sched: <= 2 preemptions, all positions",
}
CHUNK = 2

# ------------------------------------------------------------------ base models
BASE = {}
s = S("tripod", incs=3, du=0.04, dlpf=0.02)
BASE["tri"] = steps(s, [1.0, {4: [0.1, 0.05, 0.1]}])
BASE["tri"]["set"]["nsteps"] = 1
s = S("par", incs=4, dlpf=0.08)
BASE["par"] = steps(s, [1.0, -1.0])
BASE["par"]["set"]["nsteps"] = 2
BASE["par"]["bounds"] = [b for b in s["bounds"]]
s = clone(S("vm2", incs=3))
s["nodes"] = [[30, s["nodes"][2][1]], [7, s["nodes"][0][1]], [12, s["nodes"][1][1]]]
# tiny values and values with many digits belong to the definition as well
s["nodes"][0][1] = [s["nodes"][0][1][0] + 1 / 30000.0, 3e-13, s["nodes"][0][1][2] - 1e-9 / 7]
s["nodes"][1][1] = [s["nodes"][1][1][0], -7e-17, s["nodes"][1][1][2] + 1e-13]
s["elems"] = [[9, [7, 30], 1, [1.0 + 1e-11 / 3], 1.0], [4, [30, 12], 1, [1.3], 0.8 - 1e-12 / 9]]
s["bounds"] = [[12, [0, 0, 0]], [30, [1, 0, 1]], [7, [0, 0, 0]]]
s["forces"] = [[30, [0.03, 0, -0.5, 0.1, 2e-15, 0.2]]]
BASE["gap"] = s


# ------------------------------------------------------------------ operations
# every operation: (model, spec) -> False if not enabled; the spec is edited alike
def _free(spec):
    "the loaded node, another loaded or not loaded supported node"
    f = spec["forces"][0][0]
    o = [l for l, _ in spec["bounds"] if l != f]
    return f, (o[0] if o else None)


class Sys:
    def __init__(self, tp, name):
        self.tp = tp
        self.spec = copy.deepcopy(BASE[name])
        w = max(len(e[3]) for e in self.spec["elems"])
        for e in self.spec["elems"]:
            e[3] = [float(v) for v in e[3]] + [0.0] * (w - len(e[3]))
        self.M = tp.Model(log=0)
        # defined with objects, which must stay as they are
        self.objs = (
            [tp.Node(l, tuple(X)) for l, X in self.spec["nodes"]],
            [tp.Element(l, list(c), mat_type=m, mprop=list(p), gprop=[A]) for l, c, m, p, A in self.spec["elems"]],
            [tp.BoundaryU(l, tuple(v)) for l, v in self.spec["bounds"]],
            [tp.ExternalForce(l, tuple(f)) for l, f in self.spec["forces"]],
        )
        self.keep = copy.deepcopy(self.objs)
        self.M.Nodes.add_nodes(self.objs[0])
        self.M.Elements.add_elements(self.objs[1])
        self.M.Boundaries.add_bounds_U(self.objs[2])
        self.M.ExtForces.add_forces(self.objs[3])
        self.set = copy.deepcopy(vars(self.M.Settings))
        apply_settings(self.M, self.spec["set"])
        self.note_settings()
        self.phase = "new"  # new, built, run
        self.extra = None
        self.moved = False

    def note_settings(self):
        for k, v in self.spec["set"].items():
            self.set[k] = tup(v) if isinstance(v, (list, tuple)) else v

    # -- checks
    def look(self, hist):
        sp, M = self.spec, self.M
        N = {int(l): tuple(float(v) for v in c) for l, c in zip(M.Nodes.labels, M.Nodes.coords)}
        if N != {l: tuple(float(v) for v in X) for l, X in sp["nodes"]}:
            raise Violation("the nodes defined by the user are changed", history=hist, got=N)
        E = [[int(l), [int(v) for v in c], int(m), [float(v) for v in p], float(g[0])] for l, c, m, p, g in zip(M.Elements.labels, M.Elements.conns, M.Elements.mat_type, M.Elements.material_properties, M.Elements.geometric_properties)]
        W = max(len(e[3]) for e in sp["elems"])
        want = [[l, list(c), m, p + [0.0] * (W - len(p)), float(A)] for l, c, m, p, A in sp["elems"]]
        E = [[l, c, m, p[:W] if not any(p[W:]) else p, A] for l, c, m, p, A in E]
        if sorted(E) != sorted(want):
            raise Violation("the elements defined by the user are changed", history=hist, got=E, want=want)
        B = {int(l): [int(v) for v in r] for l, r in zip(M.Boundaries.Unodes, M.Boundaries.Uvalues)}
        for l, v in sp["bounds"]:
            if B.pop(l, None) != list(v):
                raise Violation("a support defined by the user is changed", label=l, history=hist)
        if any(r != [1, 1, 1] for r in B.values()):
            raise Violation("a support nobody defined", got=B, history=hist)
        F = {int(l): [float(v) for v in r] for l, r in zip(M.ExtForces.nodes, M.ExtForces.forces)}
        for l, v in sp["forces"]:
            if F.pop(l, None) != [float(x) for x in v]:
                raise Violation("a load defined by the user is changed", label=l, history=hist)
        if any(any(r) for r in F.values()):
            raise Violation("a load nobody defined", got=F, history=hist)
        for k, v in self.set.items():
            if k == "nstatev":
                continue
            w = getattr(M.Settings, k)
            if repr(w) != repr(v):
                raise Violation("the setting %s is changed" % k, got=w, want=v, history=hist)
        for grp, was in zip(self.objs, self.keep):
            for a, b in zip(grp, was):
                for k in vars(b):
                    if repr(getattr(a, k)) != repr(getattr(b, k)):
                        raise Violation("an object passed in is changed", history=hist, field=k)

    # -- operations
    def do(self, op):
        r = getattr(self, "op_" + op)()
        if r is not False:
            self.note_settings()
        return r

    def edited(self):
        self.phase = "edited" if self.phase != "new" else "new"

    def op_build(self):
        self.M.build()
        self.phase = "built"

    def op_run(self):
        if self.phase != "built":
            self.M.build()
        self.M.run()
        self.phase = "run"

    def op_plot(self):
        if self.phase != "run":
            return False
        import matplotlib.pyplot as plt

        n = [l for l, _ in self.spec["nodes"]]
        self.M.plot_history(nodes=[n[0], n[-1]], X="Displacement Z", Y="LPF")
        self.M.plot_path(nodepath=n, Y="Force X")
        self.M.plot_model(inc=-1, view="xz", force_scale=0.5)
        plt.close("all")

    def op_eval(self):
        "evaluations by hand, also committed ones, at some state"
        if self.phase != "run":
            return False
        M = self.M
        n = len(M.Analysis.Ured)
        V = np.append(0.07 * np.arange(1, n + 1), 0.3)
        M.equilibrium(V, np.zeros(n + 1), statev_write=True)
        M.stiffness(V[:-1])
        M.Results.R[-1].U[:] = 99.0
        M.Results.R.append(M.Results.R[0])

    def op_sup(self):
        "define a support of the loaded node (replaces an undefined one)"
        f, _ = _free(self.spec)
        if f in dict(self.spec["bounds"]):
            return False
        v = [1, 1, 0] if len(self.spec["nodes"]) > 3 else [1, 0, 1]
        self.M.Boundaries.add_bound_U(f, tuple(v))
        self.spec["bounds"].append([f, v])
        self.edited()

    def op_unsup(self):
        "delete the support of the loaded node"
        f, _ = _free(self.spec)
        if f not in dict(self.spec["bounds"]) or len(self.spec["nodes"]) <= 3:
            return False
        self.M.Boundaries.del_bound_U(f)
        self.spec["bounds"] = [b for b in self.spec["bounds"] if b[0] != f]
        self.edited()

    def op_free(self):
        "delete a support and define another for the same node"
        _, n = _free(self.spec)
        self.M.Boundaries.del_bound_U(n)
        was = dict(self.spec["bounds"])[n]
        v = [0, 0, 0] if was != [0, 0, 0] else [0, 0, 1]
        self.M.Boundaries.add_bound_U(n, tuple(v))
        self.spec["bounds"] = [b for b in self.spec["bounds"] if b[0] != n] + [[n, v]]
        self.edited()

    def op_load(self):
        "define a load for a node without one (on a locked direction: changes nothing)"
        f, n = _free(self.spec)
        if n in dict(self.spec["forces"]):
            return False
        v = [0.1, 0.2, 0.3, -0.1, 0.0, 0.1]
        self.M.ExtForces.add_force(n, tuple(v))
        self.spec["forces"].append([n, v])
        self.edited()

    def op_unload(self):
        if len(self.spec["forces"]) < 2:
            return False
        n = self.spec["forces"][-1][0]
        self.M.ExtForces.del_force(n)
        self.spec["forces"] = self.spec["forces"][:-1]
        self.edited()

    def op_reload(self):
        "replace the load of the loaded node"
        f, v = self.spec["forces"][0]
        w = [0.8 * x for x in v]
        self.M.ExtForces.del_force(f)
        self.M.ExtForces.add_force(f, tuple(w))
        self.spec["forces"][0] = [f, w]
        self.edited()

    def op_mat(self):
        "make the first element elastic-plastic, or elastic again"
        e = self.spec["elems"][0]
        m, p = (2, [1.1, 0.1, 0.01]) if e[2] == 1 else (1, [1.1])
        self.M.Elements.assign_material([e[0]], list(p), m)
        e[2], e[3] = m, p + [0.0] * (len(e[3]) - len(p))
        self.edited()

    def op_area(self):
        for e in self.spec["elems"]:
            e[4] = 1.25 * e[4]
        self.M.Elements.assign_geometries("all", [[e[4]] for e in self.spec["elems"]])
        self.edited()

    def op_grow(self):
        "add a supported node and a bar to it, with labels that are sorted first"
        if self.extra:
            return False
        f, n = _free(self.spec)
        X = [2.0, 0.3, 0.7]
        w = self.M.Elements.material_properties.shape[1]
        p = [0.8] + [0.0] * (w - 1)
        self.M.Nodes.add_node(1000 if self.spec["nodes"][0][0] == 1 else 1, tuple(X))
        l = int(self.M.Nodes.labels[-1])
        self.M.Boundaries.add_bound_U(l, (0, 0, 0))
        self.M.Elements.add_element(77, [l, f], mprop=list(p), gprop=[0.4])
        self.spec["nodes"].append([l, X])
        self.spec["bounds"].append([l, [0, 0, 0]])
        self.spec["elems"].append([77, [l, f], 1, p, 0.4])
        self.extra = l
        self.edited()

    def op_shrink(self):
        "and delete both; the defaults of a build for the node are its own business"
        l = self.extra
        if not l:
            # nothing to take away: labels nobody uses
            self.M.ExtForces.del_force(424242)
            self.M.Boundaries.del_bound_U(424242)
            self.M.Nodes.del_node(424242)
            self.M.Elements.del_element(424242)
            return
        self.M.Nodes.del_node(l)
        self.M.Boundaries.del_bound_U(l)
        self.M.Elements.del_element(77)
        sp = self.spec
        sp["nodes"] = [x for x in sp["nodes"] if x[0] != l]
        sp["bounds"] = [x for x in sp["bounds"] if x[0] != l]
        sp["elems"] = [x for x in sp["elems"] if x[0] != 77]
        self.extra = None
        self.edited()

    def op_move(self):
        "delete the last node and add it again at another place"
        l, X = self.spec["nodes"][-1]
        d = [0.11, 0.0, -0.07] if not self.moved else [-0.06, 0.0, 0.05]
        self.moved = not self.moved
        Y = [round(a + b, 9) for a, b in zip(X, d)]
        self.M.Nodes.del_node(l)
        self.M.Nodes.add_node(l, tuple(Y))
        self.spec["nodes"][-1] = [l, Y]
        self.edited()

    def op_turn(self):
        "delete the first element and add it again the other way round, listed last"
        l, c, mt, mp, A = self.spec["elems"][0]
        mp = mp + [0.0] * (self.M.Elements.material_properties.shape[1] - len(mp))
        self.M.Elements.del_element(l)
        self.M.Elements.add_element(l, list(c)[::-1], mat_type=mt, mprop=list(mp), gprop=[A])
        self.spec["elems"] = self.spec["elems"][1:] + [[l, list(c)[::-1], mt, mp, A]]
        self.edited()

    def op_rewire(self):
        "delete the last element and add it again between other nodes"
        l, c, mt, mp, A = self.spec["elems"][-1]
        o = [n for n, _ in self.spec["nodes"] if n not in c]
        if not o:
            return False
        mp = mp + [0.0] * (self.M.Elements.material_properties.shape[1] - len(mp))
        f, _ = _free(self.spec)
        keep = f if f in c else c[0]
        other = c[1] if keep == c[0] else c[0]
        # the next node in the list after the other end
        ring = [n for n, _ in self.spec["nodes"] if n != keep]
        new = ring[(ring.index(other) + 1) % len(ring)]
        self.M.Elements.del_element(l)
        self.M.Elements.add_element(l, [keep, new], mat_type=mt, mprop=list(mp), gprop=[A])
        self.spec["elems"][-1] = [l, [keep, new], mt, mp, A]
        self.edited()

    def op_clash(self):
        "contradiction: the build fails; then it is taken back"
        f, n = _free(self.spec)
        b = dict(self.spec["bounds"])[n]
        self.M.Boundaries.add_bound_U(n, (1, 1, 1))
        try:
            self.M.build()
        except Exception:
            pass
        else:
            raise Violation("build accepts two supports for one node")
        self.M.Boundaries.del_bound_U(n)
        self.M.Boundaries.add_bound_U(n, tuple(b))
        self.spec["bounds"] = [x for x in self.spec["bounds"] if x[0] != n] + [[n, b]]
        self.phase = "edited"

    def op_steps(self):
        "one or two load steps"
        n = 3 - self.spec["set"].get("nsteps", 1)
        if len(self.spec["forces"][0][1]) < 6:
            return False
        self.M.Settings.nsteps = self.spec["set"]["nsteps"] = n

    def op_limits(self):
        "other limits, given per step"
        v = self.spec["set"]
        v["incs"] = [3, 2] if not isinstance(v["incs"], list) else 4
        v["xlimit"] = [[-1, 0.11], [0, 0.05]] if "xlimit" not in v else [0, 50.0]
        apply_settings(self.M, {k: v[k] for k in ("incs", "xlimit")})

    def op_control(self):
        v = self.spec["set"]
        v["stepcontrol"] = not v.get("stepcontrol", False)
        v["dxtol"] = 1.25 if v["stepcontrol"] else 1.000001
        v["j_pre"] = not v.get("j_pre", True)
        apply_settings(self.M, {k: v[k] for k in ("stepcontrol", "dxtol", "j_pre")})

    def op_big(self):
        "a step that can not converge: the run ends early"
        v = self.spec["set"]
        v["nfev"], v["cycl"] = (2, 1) if v.get("nfev", 8) == 8 else (8, 4)
        apply_settings(self.M, {k: v[k] for k in ("nfev", "cycl")})

    def op_other(self):
        "another model is built, run and plotted in between"
        B, _ = execute(self.tp, S("chain", incs=2, nfev=7, stepcontrol=True))
        B.Elements.assign_material("all", [9.0, 9.0, 9.0])
        B.Settings.du = 77.0


OPS = ["build", "run", "plot", "eval", "sup", "unsup", "free", "load", "unload", "reload", "mat", "area", "grow", "shrink", "move", "turn", "rewire", "clash", "steps", "limits", "control", "big", "other"]
CORE = ["build", "run", "eval", "sup", "unsup", "load", "unload", "mat", "move", "rewire", "grow", "shrink", "steps", "big"]


@functools.lru_cache(maxsize=4000)
def fresh(key):
    import trusspy as tp

    try:
        M, _ = execute(tp, json.loads(key))
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__
    return records(M)


def compare(sys, hist, o):
    key = json.dumps(sys.spec)
    want = fresh(key)
    try:
        sys.do("run")
    except Violation:
        raise
    except Exception as e:
        if want != type(e).__name__:
            raise Violation(
                "build and run fail (%s: %s), but not for a fresh model" % (type(e).__name__, str(e)[:200]), history=hist
            )
        o.outcomes.add("fails alike")
        return
    if isinstance(want, str):
        raise Violation("a fresh model fails (%s), this one does not" % want, history=hist)
    plastic = any(e[2] == 2 for e in sys.spec["elems"])
    same_records(want, records(sys.M), 1e-9, skip=() if plastic else ("state_v",), what="results depend on the history of the model", history=hist)
    sys.look(hist)
    o.outcomes.add((len(want), plastic))


# ------------------------------------------------------------------ part sched
class Baton:
    """two threads, one of them runs; at every evaluation call the schedule decides
    whether to hand over"""

    def __init__(self, switches):
        self.lock = threading.Condition()
        self.turn = 0
        self.n = 0
        self.switches = switches
        self.done = [False, False]

    def point(self, me):
        with self.lock:
            k = self.n
            self.n += 1
            if k in self.switches and not self.done[1 - me]:
                self.turn = 1 - me
                self.lock.notify_all()
            while self.turn != me:
                self.lock.wait()

    def start(self, me):
        with self.lock:
            while self.turn != me:
                self.lock.wait()

    def finish(self, me):
        with self.lock:
            self.done[me] = True
            self.turn = 1 - me
            self.lock.notify_all()


def baton_model(tp, baton, me):
    class B(tp.Model):
        def equilibrium(self, *a, **k):
            if baton is not None:
                baton.point(me)
            return super().equilibrium(*a, **k)

    return B


SPAIR = [("tri", "par"), ("par", "gap"), ("par", "par2")]


def sched_spec(name):
    if name == "par2":
        s = copy.deepcopy(BASE["par"])
        s["elems"][0][3] = [1.1, 0.3, 0.02]
        s["set"]["dlpf"] = 0.05
        s["set"]["incs"] = 2
        return s
    s = copy.deepcopy(BASE[name])
    s["set"]["incs"] = 2
    return s


def concurrent(pair, switches):
    import trusspy as tp

    bt = Baton(set(switches))
    out = [None, None]

    def work(i):
        try:
            bt.start(i)
            M = define(tp, sched_spec(pair[i]), baton_model(tp, bt, i)(log=0))
            M.build()
            M.run()
            out[i] = records(M)
        except BaseException as e:
            out[i] = e
        finally:
            bt.finish(i)

    th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(2)]
    for t in th:
        t.start()
    for t in th:
        t.join(60)
    for i in range(2):
        if isinstance(out[i], BaseException):
            raise out[i]
        if out[i] is None:
            raise Violation("a run of two concurrent models does not end", schedule=switches)
    return out, bt.n


# ------------------------------------------------------------------ part args
def arg_calls(spec):
    "plot calls with objects of the user as arguments: (method, keywords)"
    n = [l for l, _ in spec["nodes"]]
    for view, con, lim, cb, inc in itertools.product(
        ("xz", "xy"),
        (None, "stretch", "force", "stress", ("force", [-0.2, 0.1])),
        (1.5, [-2.0, 2.5, -1.0, 3.0], [2.5, -2.0, 3.0, -1.0]),
        ("auto", [-0.2, 0.3]),
        (-1, 0),
    ):
        if isinstance(con, tuple) and cb != "auto":
            continue
        yield "plot_model", dict(view=view, contour=con, lim_scale=lim, cbar_limits=cb, inc=inc)
    for X, Y in (("Displacement Z", "LPF"), ("LPF", "Force X"), ("Increment", "Displacement X")):
        for ns in ([n[0], n[-1]], [n[-1], n[0]], (n[-1], n[0]), np.array([n[-1], n[0]])):
            yield "plot_history", dict(nodes=ns, X=X, Y=Y)
    for Y in ("Force X", "Displacement Z", "LPF"):
        for ns in (n, n[::-1], [n[-1], n[0], n[-1]], tuple(n[::-1])):
            for inc in (-1, 0, 1):
                yield "plot_path", dict(nodepath=ns, Y=Y, increment=inc)


def run_args(case, o):
    "plots and movies leave their arguments, the definition and the results alone"
    import os
    import tempfile

    import matplotlib.pyplot as plt

    import trusspy as tp

    _, name, part, parts = case
    sys = Sys(tp, name)
    sys.do("run")
    want = copy.deepcopy(records(sys.M))
    calls = list(arg_calls(sys.spec))[part::parts]
    if part == 0:
        for incs in ([2, 1], [1, 1], (2, 1), np.array([2, 1]), [-1, 1]):
            calls.append(("plot_movie", dict(incs=incs, cbar_limits=[-0.3, 0.2], contour="force", lim_scale=[-2, 2, -1, 3])))
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            for meth, kw in calls:
                was = copy.deepcopy(kw)
                try:
                    getattr(sys.M, meth)(**kw)
                finally:
                    plt.close("all")
                if repr(was) != repr(kw):
                    raise Violation("an object passed to a plot is changed", method=meth, got=kw, want=was)
                sys.look([meth])
                same_records(want, records(sys.M), 0, what="a plot changes the results", method=meth)
                o.step()
                o.state(name, meth, repr(kw))
        finally:
            os.chdir(cwd)
    compare(sys, ["plots"], o)
    o.trace()


# ------------------------------------------------------------------ part pair
PROG = ["run", "plot", "reload", "run", "eval"]


def cases(tier):
    q = tier == "quick"
    names = ["par", "gap"] if q else ["tri", "par", "gap"]
    for name in names:
        for a in OPS:
            for b in OPS:
                yield ["hist", name, [a, b], 3, "OPS"]
    if not q:
        for name in names:
            for pre in itertools.product(CORE, repeat=3):
                yield ["hist", name, list(pre), 4, "CORE"]
    for name in names:
        for i in range(8):
            yield ["args", name, i, 8]
    n = 4 if q else 5
    pairs = [("tri", "par"), ("par", "gap")] if q else list(itertools.permutations(BASE, 2)) + [("par", "par")]
    for A, B in pairs:
        for pos in itertools.combinations(range(2 * n), n):
            yield ["pair", A, B, n, list(pos)]
    for i, pair in enumerate(SPAIR):
        for first in range(MAXPTS):
            yield ["sched", i, first, 3 if q else 1]


MAXPTS = 160


def run(case):
    o = Outcome()
    globals()["run_" + case[0]](case, o)
    o.sample = dict(case=case)
    return o


def run_hist(case, o):
    import trusspy as tp

    _, name, pre, depth, alpha = case
    alpha = OPS if alpha == "OPS" else CORE
    for tail in itertools.product(alpha, repeat=depth - len(pre)):
        sys = Sys(tp, name)
        hist = []
        ok = True
        for op in list(pre) + list(tail):
            try:
                r = sys.do(op)
            except Violation:
                raise
            except Exception as e:
                # a definition that can not be solved has to fail for a fresh model too
                w = fresh(json.dumps(sys.spec))
                if w != type(e).__name__:
                    raise Violation("%s fails (%s: %s), but not for a fresh model" % (op, type(e).__name__, str(e)[:200]), history=hist + [op])
                sys.phase = "edited"
                r = None
            if r is False:
                ok = False
                break
            hist.append(op)
            o.step()
            sys.look(hist)
            o.state(json.dumps(sys.spec), sys.phase)
        if not ok:
            o.outcomes.add("disabled")
            continue
        compare(sys, hist, o)
        o.trace()


def run_pair(case, o):
    import trusspy as tp

    _, A, B, n, pos = case
    s = [Sys(tp, A), Sys(tp, B)]
    at = [0, 0]
    hist = []
    for k in range(2 * n):
        i = 0 if k in pos else 1
        op = PROG[at[i]]
        at[i] += 1
        hist.append("%d:%s" % (i, op))
        s[i].do(op)
        if op == "run":
            want = fresh(json.dumps(s[i].spec))
            plastic = any(e[2] == 2 for e in s[i].spec["elems"])
            same_records(want, records(s[i].M), 1e-9, skip=() if plastic else ("state_v",), what="results depend on another model", history=hist)
        for x in s:
            x.look(hist)
        o.step()
        o.state(A, B, tuple(at), k in pos)
    for x in s:
        compare(x, hist, o)
    o.trace()


def run_sched(case, o):
    _, ip, first, stride = case
    pair = SPAIR[ip]
    want = [fresh(json.dumps(sched_spec(p))) for p in pair]
    _, total = concurrent(pair, []) if first == 0 else (None, None)
    if first == 0:
        todo = [[], [0]]
    else:
        todo = [[first]]
    todo += [[first, b] for b in range(first + 1, MAXPTS, stride)]
    for sw in todo:
        out, n = concurrent(pair, sw)
        if sw and sw[-1] >= n:
            # no such evaluation: later positions are the same schedule
            break
        for i in range(2):
            same_records(want[i], out[i], 1e-9, skip=("state_v",) if pair[i] != "par" and pair[i] != "par2" else (), what="results depend on a concurrent model", schedule=sw)
        o.trace()
        o.step(n)
        o.state(ip, tuple(sw))
        if n >= MAXPTS:
            raise Violation("more evaluations than the bound of the schedule space", n=n, key="bound")
    o.outcomes.add(("sched", pair))


def final(tier, agg):
    if not any(isinstance(x, tuple) and x[0] == "sched" for x in agg["outcomes"]):
        return dict(fail="no concurrent schedule was executed")
    return {}
