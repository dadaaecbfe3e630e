"fills the tables of DESIGN.md (run with /opt/venv/bin/python from /verif)"
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
from mc import core
core.load_trusspy()
def one(s): return " ".join(str(s).split()).replace("|", "\\|")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
rows = ["| id | property | one case is / oracle | quick bound | thorough bound | quick s |", "|---|---|---|---|---|---|"]
for p in props:
    m = importlib.import_module("mc.checks." + p["id"].lower())
    b = m.BOUND if isinstance(m.BOUND, dict) else dict(quick=m.BOUND, thorough=m.BOUND)
    try:
        ev = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
        sec = "%.0f" % ev["wall_s"] if ev["tier"] == "quick" else ""
    except FileNotFoundError:
        sec = ""
    rows.append("| %s | %s | %s | %s | %s | %s |" % (p["id"], one(p["title"]), one(m.RULE), one(b["quick"]), one(b["thorough"]), sec))
bugs = ["| id | property | what breaks | needs | caught |", "|---|---|---|---|---|"]
missed = json.load(open(os.path.join(ROOT, "tools", "missed.json"))) if os.path.exists(os.path.join(ROOT, "tools", "missed.json")) else {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    bugs.append("| %s | %s | %s | %s | %s |" % (i, m["property"], one(m["what_it_breaks"]), one(m["needs"]), missed.get(i, "yes")))
s = open(os.path.join(ROOT, "DESIGN.md")).read()
for k, t in (("props", rows), ("bugs", bugs)):
    s = re.sub(r"(<!-- table:%s -->\n).*?(<!-- end -->)" % k, lambda q: q.group(1) + "\n".join(t) + "\n" + q.group(2), s, flags=re.S)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
