"""C13: all sequences of load steps over a load-pattern alphabet; the load of every
stored increment is rebuilt from the definition and compared with what was stored and
with what the element forces balance."""
import itertools

import numpy as np

from mc.core import Outcome, Violation, rnd
from mc.ref import Ref, close
from mc.runs import execute, records, settings, total_load
from mc.structures import S, steps

PROPERTY = "C13"
RULE = (
    "one case = structure x sequence of step load patterns x increments per step x "
    "settings, executed completely; one transition per stored increment; a state is "
    "(structure, sequence, step, rounded U, lpf)"
)
ASSUMPTIONS = [
    "a step that stores no increment at all contributes no load (final load factor zero)",
]
BOUND = {
    "quick": "5 structures x all step sequences of length 1..3 over {A, -0.7A, B, C, 0} (other loaded nodes in C) x 3 increment patterns x 3 settings (one with negative final load factors); all sequences of 4-6 steps over {A, B} on a frame, 9-12 steps, a tower of 12 nodes; 3 structures x all sequences of 2-4 steps with steps that store nothing; structure(s) of 40 nodes and 131 bars",
    "thorough": "6 structures x all step sequences of length 1..4 over {A, -0.7A, B, C, 0} x 4 increment patterns x 4 settings; all sequences of 4-6 steps over {A, -A, B}, 9-12 steps, a tower of 12 nodes; 3 structures x all sequences of 2-4 steps with steps that store nothing; structure(s) of 40 nodes and 131 bars",
}
CHUNK = 16
B = {
    "bar1": {2: [-0.4, 0.3, 0]},
    "vm2": {3: [-0.1, 0, 0.2]},
    "frame": {4: [0, 0.15, 0.1], 5: [-0.2, 0, 0.05]},
    "par": {2: [-0.3, 0.2, 0.1]},
    "tripod": {4: [-0.05, 0.1, 0.1]},
    "chain": {3: [0, 0, 0.5], 4: [0, 0, -0.3]},
    "tower": {5: [0.1, 0.05, 0.1], 12: [0, -0.1, 0.2], 10: [0.05, 0, 0]},
    "mast": {5: [0.1, 0.05, 0.1], 40: [0, -0.02, 0.1], 23: [0.05, 0, 0]},
}
C = {
    "bar1": {1: [5, 0, 0], 2: [0.2, 0, 0]},
    "vm2": {3: [0.2, 1, -0.1]},
    "frame": {5: [0.1, 0.1, 0.1]},
    "par": {2: [0.1, 0, -0.5], 3: [1, 1, 1]},
    "tripod": {4: [0.2, 0.0, 0.0], 1: [1, 2, 3]},
    "chain": {2: [0, 0, -0.7]},
    "tower": {6: [0.1, 0, -0.1], 2: [1, 1, 1], 11: [0.05, 0.02, 0]},
    "mast": {36: [0.02, 0, -0.1], 2: [1, 1, 1], 11: [0.05, 0.02, 0]},
}
INCS = [(2, 2, 2, 2), (1, 3, 2, 1), (3, 1, 1, 2), (2, 4, 1, 3), (1, 2, 1, 1, 1, 2, 1, 1, 2, 1, 1, 1)]
SETS = [
    dict(),
    dict(stepcontrol=True, dxtol=1.25, maxfac=4),
    dict(xlimit=((0, 9.0), (0, 0.02), (0, 9.0), (0, 0.02))),
    # locked load factor in negative direction: negative final load factors
    dict(neg=True, du=100.0),
    dict(gap=True, nfev=4),
]


def cases(tier):
    q = tier == "quick"
    yield from long_cases(q)
    yield from gap_cases(q)
    names = ["bar1", "vm2", "frame", "par", "chain"] + ([] if q else ["tripod"])
    alph = ["A", "-A", "B", "0", "C"]
    for L in range(1, 4 if q else 5):
        for seq in itertools.product(alph, repeat=L):
            for name in names:
                for ii in range(3 if q else 4):
                    for k in (0, 1, 3) if q else range(4):
                        if k == 3 and L > 1 and ii == 2:
                            continue
                        if q and L == 3 and (ii + k) % 2:
                            continue
                        if name == "par" and "C" in seq:
                            # bars flip between elastic and yielding: failing steps
                            continue
                        if q and L == 3 and len(set(seq)) > 2 and "C" in seq and (name == "vm2" or k or ii):
                            continue
                        if L == 4 and (ii or k == 2):
                            continue
                        yield [name, list(seq), ii, k]


def gap_cases(q):
    "steps of a huge load under a locked load factor store nothing"
    for name in ("vm2", "frame", "tripod"):
        for L in (2, 3, 4):
            for seq in itertools.product(["A", "-A", "F"], repeat=L):
                if "F" in seq:
                    yield [name, list(seq), 4, 4]


def long_cases(q):
    "more load steps: all sequences over a smaller alphabet, and up to 12 steps"
    for L in (4, 5, 6):
        for seq in itertools.product(["A", "B"] if q else ["A", "-A", "B"], repeat=L):
            if not q and L == 6 and seq[0] != "A":
                continue
            yield ["frame", list(seq), 4, 0]
            if L == 4 or not q:
                yield ["bar1", list(seq), 4, 0]
    for name in ("bar1", "frame"):
        for L in (9, 10, 11, 12):
            for c in range(3):
                for k in (0, 1):
                    yield [name, [["A", "B", "-A", "0", "C"][(i * (c + 1) + c) % 5] for i in range(L)], 4, k]
    for seq in itertools.product(["A", "B", "C"], repeat=2):
        for k in (0, 1):
            yield ["tower", list(seq), 0, k]
    yield ["tower", ["A", "-A", "B"], 1, 0]
    yield ["mast", ["A", "B"], 1, 0]
    yield ["mast", ["C", "A", "0"], 4, 0]
    yield ["tower", ["C", "0", "A"], 2, 1]


def pattern(name, s):
    return {"A": 1.0, "F": 100.0, "-A": -0.7, "0": 0.0, "B": B[name], "C": C[name]}[s]


def run(case):
    import trusspy as tp

    name, seq, ii, k = case
    L = len(seq)
    st = dict(SETS[k])
    neg = st.pop("neg", False)
    gap = st.pop("gap", False)
    spec = steps(S(name, **st), [pattern(name, s) for s in seq])
    spec["set"]["incs"] = tuple(INCS[ii][:L]) if L > 1 else INCS[ii][0]
    if "xlimit" in SETS[k]:
        spec["set"]["xlimit"] = SETS[k]["xlimit"][:L] if L > 1 else SETS[k]["xlimit"][0]
    if k == 0 and L > 1 and ii == 1:
        # more load columns than steps: the surplus is not used
        spec["set"]["nsteps"] = L - 1
    ns = spec["set"]["nsteps"]
    ref = Ref(spec)
    if neg:
        d = 0.1 * settings(spec)["dlpf"]
        spec["set"].update(j0=-(len(ref.DOF1) + 1), j_fixed=True, dlpf=d)
    if gap:
        spec["set"].update(j0=len(ref.DOF1) + 1, j_fixed=True)
    M, _ = execute(tp, spec)
    recs = records(M)
    st = settings(spec)
    o = Outcome()
    if close(recs[0]["U"], 0 * recs[0]["U"], 0) is False or recs[0]["lpf"] != 0:
        raise Violation("first result is not the undeformed one")
    labels = [r["step"] for r in recs[1:]]
    want = [s for s in range(1, ns + 1) if not (gap and s not in labels)]
    if labels != sorted(labels) or sorted(set(labels)) != want:
        raise Violation("step labels are wrong", got=labels, steps=ns)
    for i in range(1, len(recs)):
        R = recs[i]
        s = R["step"]
        const = total_load(ref, recs, i) - R["lpf"] * ref.force(s - 1)
        if not close(R["fc"], const, 1e-12):
            raise Violation("constant load of earlier steps is wrong", increment=i, step=s, got=R["fc"], want=const)
        if not close(R["f"], ref.force(s - 1), 0):
            raise Violation("load vector of the step is wrong", increment=i, step=s, got=R["f"], want=ref.force(s - 1))
        res = (total_load(ref, recs, i) - R["r"]).ravel()[ref.DOF1]
        if not np.sqrt((res**2).sum()) <= 1e-8 * 1.001 + 1e-13:
            raise Violation("internal forces do not balance the superposed load", increment=i, step=s, residual=res)
        prev = recs[i - 1]
        if not close(R["U0"], prev["U"], 0):
            raise Violation("increment does not continue from the last displacements", increment=i, step=s, got=R["U0"], want=prev["U"])
        first = prev["step"] != s or i == 1
        start = 0.0 if first else prev["lpf"]
        if k == 0:
            # without step control: load factor and displacements move within limits,
            # counted from zero at the begin of the step
            if abs(R["lpf"] - start) > st["dlpf"] * 1.00001:
                raise Violation("load factor does not restart at zero", increment=i, step=s, got=R["lpf"], start=start)
        o.step()
        o.state(name, seq[:s], rnd(R["U"], 8), round(R["lpf"], 9))
    ends = [([0.0] + [r["lpf"] for r in recs[1:] if r["step"] == s])[-1] for s in range(1, ns + 1)]
    if not close(np.ravel(M.Results.step_lpf_end), ends, 0):
        raise Violation("recorded final load factors are wrong", got=M.Results.step_lpf_end, want=ends)
    if neg and not all(e < 0 for e in ends):
        raise Violation("locked negative load factor ends positive", got=ends)
    o.trace()
    o.outcomes.add((name, tuple(labels), bool(neg), ns if gap else 0))
    o.sample = dict(case=case, final_load_factors=ends)
    return o


def final(tier, agg):
    if not any(x[3] == 3 and set(x[1]) == {1, 3} for x in agg["outcomes"]):
        return dict(fail="no enumerated run has a step without increments")
    return {}
