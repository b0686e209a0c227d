#!/opt/venv/bin/python
"""Plants one bug: plant.py DEF.py [--no-check]

DEF.py defines id, property, file (below src/tight_binding_redweasel), edits=[(old,new),...], demo (text), needs, what.
Makes a scratch copy of /repo under /tmp, confirms: only original lines are changed, the demo passes clean and
fails with the patch, everything compiles, the stable tests pass; then runs the property's quick check on it."""
import json, os, re, shutil, subprocess, sys, tempfile
HEAD = '''import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
'''
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def main(path, nocheck=False):
    d = {}
    exec(open(path).read(), d)
    bid, prop = d["id"], d["property"]
    out = f"/verif/seeded/{bid}"
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        for name in ("clean", "bug"):
            shutil.copytree("/repo", f"{tmp}/{name}", symlinks=True)
            sh(["git", "checkout", "--", "."], f"{tmp}/{name}")
        rel = "src/tight_binding_redweasel/" + d["file"]
        edits = d["edits"]
        for e in edits:
            old, new = e[:2]
            f = f"{tmp}/bug/" + (("src/tight_binding_redweasel/" + e[2]) if len(e) > 2 else rel)
            text = open(f).read()
            assert text.count(old) == 1, f"{bid}: old text occurs {text.count(old)} times: {old!r}"
            open(f, "w").write(text.replace(old, new))
        diff = sh(["git", "diff"], f"{tmp}/bug").stdout
        # removed lines must be original ones
        blame_bad = []
        cur = None
        for line in sh(["git", "diff", "-U0"], f"{tmp}/bug").stdout.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                s, n = int(m[1]), int(m[2] or 1)
                if n:
                    b = sh(["git", "blame", "-L", f"{s},{s+n-1}", "--", cur], f"{tmp}/clean").stdout
                    blame_bad += [l for l in b.splitlines() if not l.startswith("^adc166d")]
                else:
                    blame_bad.append(f"pure insertion at {cur}:{s}")
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(HEAD + d["demo"].strip("\n") + "\n")
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["what"]}, open(f"{out}/meta.json", "w"), indent=1)
        if blame_bad:
            print(bid, "NOT ORIGINAL:", *blame_bad, sep="\n  ")
        a = sh(["bash", f"{out}/demo.sh"], f"{tmp}/clean")
        b = sh(["bash", f"{out}/demo.sh"], f"{tmp}/bug")
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            print(bid, "DEMO", a.returncode, b.returncode, a.stderr[-800:], b.stdout[-300:])
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], f"{tmp}/bug", dict(ENV, PYTHONPATH=f"{tmp}/bug/src"))
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        tok = t.returncode == 0
        if not tok:
            print(bid, "TESTS", t.stdout[-600:])
        res = "-"
        if not nocheck:
            c = sh(["./run_check.py", prop], "/verif", dict(ENV, VERIF_REPO=f"{tmp}/bug", VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res = f"exit {c.returncode}; " + (v[0] if v else c.stdout.strip().splitlines()[-1] if c.stdout.strip() else c.stderr[-300:])
        print(f"{bid:28s} {prop} demo={'ok' if ok else 'BAD'} ({b.stderr.strip().splitlines()[-1][:70] if b.stderr.strip() else ''}) tests={'ok' if tok else 'FAIL'} [{last}] orig={'ok' if not blame_bad else 'BAD'} check: {res}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    for p in [a for a in sys.argv[1:] if not a.startswith("--")]:
        try:
            main(p, "--no-check" in sys.argv)
        except Exception as e:
            print(p, "ERROR", repr(e))
        sys.stdout.flush()
