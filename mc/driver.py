import importlib
import os
import sys
import tempfile
import warnings
from . import core


def prepare():
    src = os.path.join(core.REPO, "src")
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import tight_binding_redweasel as tb
    assert os.path.realpath(tb.__file__).startswith(os.path.realpath(src) + "/"), tb.__file__


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    prepare()
    m = importlib.import_module("mc.props." + prop.lower())
    subs = list(m.subs(tier))
    only = os.environ.get("VERIF_ONLY")
    if only:
        subs = [s for s in subs if only in s.name]
    cap = getattr(m, "CAP", {"quick": 560, "thorough": 6 * 3600})[tier]
    return core.run_property(prop, m.LEVEL, subs, tier, seed, getattr(m, "ASSUMPTIONS", []), cap)


def replay(prop, sub, case):
    prepare()
    m = importlib.import_module("mc.props." + prop.lower())
    for tier in ("quick", "thorough"):
        for s in m.subs(tier):
            if s.name == sub:
                try:
                    if isinstance(s, core.BFS):
                        s.replay(case["root"], case["history"])
                    else:
                        core.fix_random()
                        s.run(case)
                except core.Skip:
                    print("outside of the domain")
                    return 0
                except Exception as e:
                    print("FAILS: " + core.explain(e))
                    return 1
                print("holds")
                return 0
    print("unknown sub exploration")
    return 2
