"writes MANIFEST.json from the table below (run with python3)"
import json

PY = "/opt/venv/bin/python check.py"
DIRECT = "exhaustive bounded exploration of the implementation"
T = {
    "C01": (DIRECT + ": all runs of a structure x load history x settings space, each stored increment re-assembled by an independent reference", "every stored increment of every enumerated run is checked against a reference assembly"),
    "C02": (DIRECT + ": all orientations x end displacements x properties of a lattice", "closed-form truss law as oracle; displacement lattice, not the continuum"),
    "C03": (DIRECT + ": all support patterns x lattice displacement states x material branches", "analytic reference tangent and central differences; lattice states away from the yield kink"),
    "C04": (DIRECT + ": all element sequences (oriented multigraphs) up to a length x labellings", "independent assembly as oracle"),
    "C05": (DIRECT + ": all permutations and relabellings of a bounded group, differential oracle", "every image of the definition is run and compared entity by entity"),
    "C06": ("explicit-state exploration of all strain sequences over a lattice on the real material", "defining conditions of isotropic hardening as oracle; strain alphabet contains values exactly on the yield limit"),
    "C07": ("exhaustive enumeration of runs and of scripted solver environments (all rejection / retry / cut patterns), state recursion replayed", "stored history is replayed by an independent material update; probes interleave evaluations"),
    "C08": ("exhaustive enumeration of scripted environments of the real path follower, plus all settings x structures on complete runs", "limits recomputed from the recorded increments and the follower's documented rule"),
    "C09": ("model checking of the real path follower against a reference follower in every scripted environment of the bound (trace conformance)", "the scripted environment decides convergence, iteration counts and controlling components; reference follower is executed in lock step"),
    "C10": (DIRECT + ": complete path tracing runs over a grid of structures with independently known paths", "paths with radius of curvature below two steps are excluded, see DESIGN.md"),
    "C11": ("exhaustive fault enumeration: every scripted pattern of solver outcomes (incl. never converging) on the real path follower", "bounded number of evaluations is checked by counting; stored prefix compared"),
    "C12": (DIRECT + ": every increment limit and every value limit (component x threshold) of the bound", "oracle is the unlimited run cut at the first crossing"),
    "C13": (DIRECT + ": all load-step sequences over a load alphabet", "superposed load recomputed from the definition and the stored factors only"),
    "C14": (DIRECT + ": all runs of a bounded space; every record snapshotted when stored and compared at the end", "internal agreement of each record and immutability under later increments, steps, evaluations"),
    "C15": ("explicit exploration of all operation histories of one model, all interleavings of two models, all thread schedules with at most two preemptions (controlled scheduler)", "differential oracle: a fresh model of the same definition"),
    "C16": ("explicit-state breadth-first search over operation sequences on the real tables in lock step with a reference", "reference is a dictionary; all labels are looked up after every operation"),
    "C17": (DIRECT + ": all assignments of supports and loads to nodes, all orders, all single contradictions", "resolved tables are compared with the definition"),
    "C18": ("exhaustive enumeration of scripted residual / update histories on the real Newton solver", "reference automaton executed in lock step"),
    "C19": (DIRECT + ": all option combinations and sequences of model plots, artists read back", "geometry, arrows, colours of the figure compared with the stored results"),
    "C20": (DIRECT + ": all quantity x node x increment x target combinations and sequences of plots", "curves read back from the figure must equal the stored values exactly"),
    "C21": (DIRECT + ": all increment sets, earlier folder contents, sequences of movies", "pictures and GIF frames are identified by comparison with pictures of the increments"),
    "C22": (DIRECT + ": all log levels x files x models x settings, all well-nested schedules of up to three models incl. failing runs", "each stream is compared with what the same operations print without a log file"),
    "C23": (DIRECT + ": all 48 axis symmetries x translations of complete runs, differential oracle", "images of the definition are run and mapped back"),
    "C24": (DIRECT + ": all load histories over a load alphabet x settings, against independently computed equilibria", "comparison stops where the reference state is not clearly stable"),
    "C25": (DIRECT + ": all unit pairs of a lattice x structures x load histories x settings, differential oracle", "every converted run is compared with the original one, increment by increment"),
    "C26": (DIRECT + ": all equivalent descriptions of a bounded transformation set (all subsets of bars split, all pairs of supports tied, ...), differential oracle", "every transformed run is mapped back and compared"),
    "C27": ("exhaustive enumeration of scripted environments of the real path follower and of real runs; each log is parsed and compared with the stored results", "the expected sequence of log lines is computed from the stored results"),
    "C28": ("exhaustive fault injection: a run is interrupted at every evaluation and at every executed line, then the model is compared and run again", "differential oracle: a process in which nothing was interrupted"),
}
TRUST = " Trusts numpy, matplotlib and the reference semantics in /verif/mc; holds within the bounds stated in the evidence file."


def main():
    checks = [
        dict(
            property=p,
            quick_cmd="%s %s --tier quick" % (PY, p),
            thorough_cmd="%s %s --tier thorough" % (PY, p),
            technique="model checking: " + t,
            level="model_checking",
            level_note="Exhaustive within the bound: " + note + "." + TRUST,
        )
        for p, (t, note) in sorted(T.items())
    ]
    json.dump(
        dict(
            version=1,
            setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, matplotlib, imageio"',
            checks=checks,
            not_applicable=[],
            notes="No hooks in /repo: the checks import the code of /repo/src as it is. DESIGN.md describes the method, known_findings.txt the defects repaired.",
        ),
        open("MANIFEST.json", "w"),
        indent=1,
    )


main()
