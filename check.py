#!/opt/venv/bin/python
"""python check.py <property id> [--tier quick|thorough] [--jobs N] [--replay FILE]"""
import argparse
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if os.path.isdir("/opt/trusspy-work/mpl"):
    os.environ.setdefault("MPLCONFIGDIR", "/opt/trusspy-work/mpl")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    from mc import core

    sys.exit(core.main(a.property.lower(), a.tier, a.jobs, a.replay))
