#!/opt/venv/bin/python
"""run_check.py <property id> [quick|thorough]   -- see DESIGN.md"""
import os
import sys

if __name__ == "__main__":
    for k, v in {"MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
                 "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}.items():
        if os.environ.get(k) != v:
            os.environ[k] = v
            os.environ["_VERIF_REEXEC"] = "1"
    if os.environ.pop("_VERIF_REEXEC", None):
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B"] + sys.argv)
    from mc import driver
    sys.exit(driver.main(sys.argv[1:]))
