"""C24: every stored increment of every enumerated load history of an elastic structure
is compared with an independently computed equilibrium state at the same total load;
histories which remove the load must end at zero."""
import functools
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close
from mc.runs import execute, records, total_load
from mc.structures import S, steps

PROPERTY = "C24"
RULE = (
    "one case = structure x material variant x load history (sequence of steps) x "
    "settings; one transition per stored increment, compared with the reference state "
    "at that total load; states are (structure, rounded total load)"
)
ASSUMPTIONS = [
    "increments whose reference state is not clearly stable (lowest eigenvalue of the "
    "free stiffness < 0.02) end the comparison of that history",
    "reference: continuation with 12 proportional load steps and Newton to 1e-12",
    "agreement 1e-6 (force tolerance 1e-8 over stiffness)",
]
BOUND = {
    "quick": "4 structures x 3 material variants (elastic, never-yielding, mixed) x all histories of length 1..3 over {A,-A,B,-B} x 5 settings (one with negative load factors); a tower of 12 nodes, length <= 2",
    "thorough": "6 structures x 3 material variants x all histories of length 1..4 over {A,-A,B,-B} x 10 settings (two with negative load factors); a tower of 12 nodes, length <= 3",
}
CHUNK = 16
BL = {
    "bar1": {2: [-0.5, 0, 0]},
    "frame": {4: [0, 0.15, 0.1], 5: [-0.2, 0, 0.05]},
    "tripod": {4: [-0.05, 0.04, 0.1]},
    "vm2": {3: [-0.05, 0, 0.1]},
    "nta": {4: [-0.5, 0.2, 0.4]},
    "vm1": {2: [0, 0, 0.3]},
    "tower": {5: [0.1, 0.05, 0.1], 12: [0, -0.1, 0.2], 10: [0.05, 0, 0]},
}
# dlpf per structure so that a few steps stay clearly stable
DL = dict(bar1=0.05, frame=0.03, tripod=0.01, vm2=0.004, nta=0.003, vm1=0.008, tower=0.01)
SETS = [
    dict(du=100.0),
    dict(du=100.0, stepcontrol=True),
    dict(stepcontrol=True, dxtol=1.25),
    dict(du=100.0, f=2.0, incs=2),
    dict(j_pre=False),
    dict(du=100.0, f=0.5, j_pre=False),
    dict(du=100.0, f=0.25, nfev=5),
    dict(stepcontrol=True, nfev=4, cycl=8, increase=1.0),
    # load factor locked in negative direction: every step ends at a negative factor
    dict(du=100.0, neg=True),
    dict(du=100.0, neg=True, f=0.5, stepcontrol=True),
]
QUICK = (0, 1, 2, 3, 8)


def cases(tier):
    q = tier == "quick"
    names = ["bar1", "frame", "tripod", "vm2"] + ([] if q else ["nta", "vm1"])
    for L in (1, 2) if q else (1, 2, 3):
        for seq in itertools.product(["A", "-A", "B", "-B"], repeat=L):
            for mat in range(3):
                for k in (0, 1, 8):
                    if (mat + k + len(seq)) % 2 == 0 or (q and L == 2 and k):
                        continue
                    yield ["tower", mat, list(seq), k]
    for L in range(1, 4 if q else 5):
        for seq in itertools.product(["A", "-A", "B", "-B"], repeat=L):
            for name in names:
                for mat in range(3):
                    for k in QUICK if q else range(len(SETS)):
                        if L >= 3 and (mat + k) % 4 and (q or L == 4):
                            continue
                        yield [name, mat, list(seq), k]


def run(case):
    import trusspy as tp

    name, mat, seq, k = case
    pats = []
    for s in seq:
        sg = -1.0 if s[0] == "-" else 1.0
        pats.append(sg if s[-1] == "A" else {n: [sg * v for v in f] for n, f in BL[name].items()})
    spec = steps(S(name), pats)
    st = dict(SETS[k])
    f = st.pop("f", 1.0)
    spec["set"].update(incs=3, dlpf=DL[name] * f)
    neg = st.pop("neg", False)
    spec["set"].update(st)
    if neg:
        spec["set"].update(j0=-(len(Ref(spec).DOF1) + 1), j_fixed=True)
    for i, e in enumerate(spec["elems"]):
        if mat == 1 or (mat == 2 and i % 2):
            e[2], e[3] = 2, [e[3][0], 0.1, 50.0]
    ref = Ref(spec)
    M, _ = execute(tp, spec)
    recs = records(M)
    o = Outcome()
    for i in range(1, len(recs)):
        R = recs[i]
        F = total_load(ref, recs, i)
        U, stable = solve(ref, F)
        if not stable:
            o.outcomes.add("unstable:" + name)
            break
        if neg and R["lpf"] >= 0:
            raise Violation("negative locked control component, but the load factor is not negative", increment=i, lpf=R["lpf"])
        if not close(R["U"], U, 1e-6):
            raise Violation("displacements depend on the load history", increment=i, got=R["U"], want=U, load=F)
        ev = ref.eval(U)
        for key, want in (("stretch", "stretch"), ("element_stress", "stress"), ("element_force", "force")):
            if not close(np.ravel(R[key]), ev[want], 1e-6):
                raise Violation(key + " depends on the load history", increment=i, got=R[key], want=ev[want])
        if np.abs(F[ref.freeflat.reshape(-1, 3) == 1]).max() < 1e-12:
            if np.abs(R["U"]).max() > 1e-6 or np.abs(R["element_force"]).max() > 1e-6:
                raise Violation("structure does not return to zero on unloading", increment=i, got=R["U"])
            o.outcomes.add("zero:" + name)
        o.step()
        o.state(name, rnd(F, 9))
    o.trace()
    o.outcomes.add((name, len(recs), bool(neg)))
    o.sample = dict(case=case, increments=len(recs) - 1)
    return o


def final(tier, agg):
    want = {"zero:bar1", "zero:frame", "zero:tripod", "zero:vm2"}
    if not want <= agg["outcomes"]:
        return dict(fail="no enumerated history returned to zero load: " + repr(sorted(want - agg["outcomes"])))
    return {}


def solve(ref, F, n=12):
    "reference equilibrium at total load F on the path that starts undeformed"
    free = ref.DOF1
    u = np.zeros(len(free))
    for k in range(1, n + 1):
        f = (F * k / n).ravel()[free]
        for _ in range(25):
            U = ref.expand(u)
            g = f - ref.eval(U)["r"].ravel()[free]
            K = ref.tangent(U)[np.ix_(free, free)]
            if np.linalg.eigvalsh((K + K.T) / 2)[0] < 0.02:
                return ref.expand(u), False
            du = np.linalg.solve(K, g)
            u = u + du
            if np.linalg.norm(du) < 1e-13:
                break
    return ref.expand(u), True
