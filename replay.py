#!/opt/venv/bin/python
"""replay.py <replay.json>: executes the one recorded case/history on the current tree, without the explorer."""
import json
import os
import sys
os.environ.setdefault("MPLBACKEND", "Agg")
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
from mc import driver

r = json.load(open(sys.argv[1]))
sys.exit(driver.replay(r["property"], r["sub"], r["case"]))
