#!/opt/venv/bin/python
"""sweep.py MODULE [tier] [substring]: run every case of the Enum subs without stopping, group the failures (development aid)"""
import os, sys, collections, multiprocessing, re, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ[k] = "1"
import importlib
import warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
mod = importlib.import_module("mc.props." + sys.argv[1])
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
only = sys.argv[3] if len(sys.argv) > 3 else ""
from mc import core

def one(a):
    n, c = a
    np.random.seed(1)
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeoutError("case timeout")))
    signal.alarm(60)
    try:
        r = S[n].run(c)
        return n, c, None, r
    except core.Skip:
        return n, c, "skip", None
    except Exception as e:
        return n, c, type(e).__name__ + ": " + str(e), None
    finally:
        signal.alarm(0)

S = {s.name: s for s in mod.subs(tier) if isinstance(s, core.Enum) and only in s.name}
jobs = [(n, c) for n, s in S.items() for c in s.cases(tier)]
devnull = open(os.devnull, "w")
groups = collections.OrderedDict()
stat = collections.Counter()
def init():
    sys.stdout = devnull
with multiprocessing.Pool(8, initializer=init) as p:
    for n, c, err, r in p.imap_unordered(one, jobs, chunksize=4):
        stat[n, "skip" if err == "skip" else "ok" if err is None else "FAIL"] += 1
        if err and err != "skip":
            key = (n, re.sub(r"-?\d+\.?\d*(e[-+]?\d+)?", "#", err)[:90])
            groups.setdefault(key, []).append((len(str(c)), str(c), err))
for k, v in groups.items():
    v.sort()
    print(len(v), k)
    for _, c, e in v[:4]:
        print("     ", c, "\n         ", e[:400])
print(dict(stat))
