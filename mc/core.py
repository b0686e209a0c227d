"""Exploration engine shared by all checks.

Two kinds of exhaustive exploration of the *real* code:

* Enum: a finite, completely enumerated space of cases (inputs, configurations,
  crash points).  `cases(tier)` yields JSON-able cases simplest first, `run(case)` executes
  the real code for that case and compares with the oracle.
* BFS: explicit-state breadth-first search over operation histories.  A state is the history
  reaching it, replayed on a fresh pair (real object, reference model); `canon` merges states
  that have the same futures; `check` is evaluated in every state.

Both raise Violation (or let any exception of the code under test escape) when the property fails.
Nothing is sampled; the seed only rotates the order in which the cases are visited.
"""
import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """case is outside of the property's domain (counted, not evaluated)"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Enum:
    def __init__(self, name, cases, run, rule="", batch=None):
        self.name, self.cases, self.run, self.rule, self.batch = name, cases, run, rule, batch


class BFS:
    """roots(tier) -> list of JSON roots;  make(root) -> state;  ops(root, state, tier) -> list of JSON ops
    step(state, op) -> None or new state;  check(state) ;  canon(state) -> hashable;  depth(root, tier) -> int"""

    def __init__(self, name, roots, make, ops, step, check, canon, depth, rule=""):
        self.name, self.roots, self.make, self.ops, self.step = name, roots, make, ops, step
        self.check, self.canon, self.depth, self.rule = check, canon, depth, rule

    def build(self, root, hist):
        fix_random()
        st = self.make(root)
        for op in hist:
            r = self.step(st, op)
            if r is not None:
                st = r
        return st

    def replay(self, root, hist):
        fix_random()
        st = self.make(root)
        self.check(st)
        for op in hist:
            r = self.step(st, op)
            if r is not None:
                st = r
            self.check(st)

    def explore(self, root, tier, deadline, out):
        """one root; returns dict of counts"""
        depth = self.depth(root, tier)
        st = self.make(root)
        self._guard(lambda: self.check(st), root, [], out)
        seen = {self.canon(st)}
        frontier = collections.deque([[]])
        trans = 0
        maxd = 0
        capped = False
        sample = None
        opcount = collections.Counter()
        while frontier and not out["viol"]:
            if time.time() > deadline:
                capped = True
                break
            hist = frontier.popleft()
            if len(hist) >= depth:
                continue
            base = self.build(root, hist)
            for op in self.ops(root, base, tier):
                h2 = hist + [op]
                box = {}

                def one():
                    with time_limit(CASE_LIMIT):
                        box["st"] = self.build(root, h2)
                        self.check(box["st"])
                trans += 1
                opcount[op[0] if isinstance(op, (list, tuple)) else str(op)] += 1
                if not self._guard(one, root, h2, out):
                    break
                c = self.canon(box["st"])
                if c not in seen:
                    seen.add(c)
                    frontier.append(h2)
                    maxd = max(maxd, len(h2))
                    sample = h2
        return {"states": len(seen), "transitions": trans, "depth": maxd, "capped": capped,
                "sample": {"sub": self.name, "root": root, "history": sample}, "ops": dict(opcount)}

    def _guard(self, fn, root, hist, out):
        try:
            fn()
            return True
        except Skip:
            return True
        except (Exception, CaseTimeout) as e:
            out["viol"].append({"sub": self.name, "case": {"root": root, "history": hist}, "msg": explain(e)})
            return False


def explain(e):
    if isinstance(e, Violation):
        return str(e)
    if isinstance(e, CaseTimeout):
        return "no result within %d s" % CASE_LIMIT
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(tb[-4:]))


CASE_LIMIT = 200


class time_limit:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def handler(sig, frm):
            raise CaseTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ---------------------------------------------------------------- workers
_SUBS = None


def _silence():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def fix_random():
    import numpy as np
    np.random.seed(12345)


def _work(job):
    kind, si, payload, tier, deadline = job
    sub = _SUBS[si]
    fix_random()
    out = {"viol": [], "si": si, "kind": kind}
    if kind == "bfs":
        out.update(sub.explore(payload, tier, deadline, out))
        return out
    ev = nontriv = skipped = cases = 0
    outcomes = set()
    capped = False
    sample = None
    for case in payload:
        if time.time() > deadline:
            capped = True
            break
        cases += 1
        fix_random()
        try:
            with time_limit(CASE_LIMIT):
                r = sub.run(case)
        except Skip:
            skipped += 1
            continue
        except (Exception, CaseTimeout) as e:
            out["viol"].append({"sub": sub.name, "case": case, "msg": explain(e)})
            continue
        if r is None:
            r = {}
        ev += r.get("n", 1)
        if r.get("nontrivial", True):
            nontriv += 1
            sample = case
        if "outcome" in r:
            outcomes.add(str(r["outcome"]))
    out.update(evaluations=ev, nontrivial=nontriv, skipped=skipped, cases=cases, capped=capped,
               sample={"sub": sub.name, "case": sample}, outcomes=list(outcomes)[:2000])
    return out


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == prop:
                    known.append(d)
    return known


def matches(known, v):
    for d in known:
        if d["sub"] == v["sub"] and json.loads(json.dumps(v["case"])) in d["cases"]:
            return d
    return None


def jnorm(x):
    """JSON normal form, handles numpy scalars"""
    import numpy as np

    def default(o):
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.integer):
            return int(o)
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, complex):
            return [o.real, o.imag]
        return str(o)
    return json.loads(json.dumps(x, default=default))


def run_property(prop, level, subs, tier, seed, assumptions, soft_cap):
    global _SUBS
    t0 = time.time()
    deadline = t0 + soft_cap
    _SUBS = subs
    jobs = []
    seen_cases = [set() for _ in subs]
    ncpu = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))
    per_sub = []
    for si, sub in enumerate(subs):
        if isinstance(sub, BFS):
            roots = list(sub.roots(tier))
            jobs += [("bfs", si, r, tier, deadline) for r in roots]
            per_sub.append({"sub": sub.name, "kind": "bfs", "roots": len(roots), "rule": sub.rule})
        else:
            cases = []
            for c in sub.cases(tier):
                h = hashlib.blake2b(json.dumps(jnorm(c), sort_keys=True).encode(), digest_size=10).digest()
                if h in seen_cases[si]:
                    continue
                seen_cases[si].add(h)
                cases.append(c)
            if cases:
                rot = seed % len(cases) if seed else 0
                cases = cases[rot:] + cases[:rot]
            nchunk = sub.batch or max(1, min(len(cases), 6 * ncpu))
            nchunk = min(nchunk, max(1, len(cases)))
            for i in range(nchunk):
                ch = cases[i::nchunk]
                if ch:
                    jobs.append(("enum", si, ch, tier, deadline))
            per_sub.append({"sub": sub.name, "kind": "enum", "distinct_cases": len(cases), "rule": sub.rule})
    tot = collections.Counter()
    capped = False
    viol, samples, outcomes = [], {}, collections.defaultdict(set)
    opcount = collections.Counter()
    known = load_known(prop)
    found_known = {}
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    pool = ctx.Pool(ncpu, initializer=_silence)
    try:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while True:
            try:
                out = it.next(timeout=max(5.0, deadline + CASE_LIMIT + 60 - time.time()))
            except StopIteration:
                break
            ps = per_sub[out["si"]]
            for key in ("states", "transitions", "evaluations", "nontrivial", "skipped", "cases"):
                if key in out:
                    tot[key] += out[key]
                    ps[key] = ps.get(key, 0) + out[key]
            if "depth" in out:
                ps["depth"] = max(ps.get("depth", 0), out["depth"])
            for k, v in out.get("ops", {}).items():
                opcount[k] += v
            capped |= out.get("capped", False)
            if out.get("sample") and out["sample"].get("case", out["sample"].get("history")) is not None:
                samples.setdefault(out["si"], out["sample"])
            outcomes[out["si"]].update(out.get("outcomes", []))
            for v in out["viol"]:
                v["case"] = jnorm(v["case"])
                k = matches(known, v)
                if k:
                    found_known[json.dumps(k["what"])] = k
                else:
                    viol.append(v)
            if len(viol) > 200:
                capped = True
                break
    finally:
        pool.terminate()
        pool.join()
    for si, ps in enumerate(per_sub):
        if outcomes[si]:
            ps["distinct_outcomes"] = len(outcomes[si])
    wall = time.time() - t0
    for k in found_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov = {"samples": jnorm(list(samples.values())[:12]), "sub_explorations": per_sub, "exhaustive": not capped,
           "known_findings_observed": len(found_known)}
    if opcount:
        cov["operations"] = dict(opcount)
    if tot["transitions"]:
        cov["states"] = tot["states"]
        cov["transitions"] = tot["transitions"]
        # every transition is executed on the real object and on the reference model and compared
        cov["traces_validated_against_impl"] = tot["transitions"]
    if tot["evaluations"] or level != "model_checking":
        cov["evaluations"] = tot["evaluations"]
        cov["distinct_nontrivial"] = tot["nontrivial"]
        cov["cases_outside_domain"] = tot["skipped"]
    cov["rule"] = "; ".join(s.name + ": " + s.rule for s in subs if s.rule) or "see sub_explorations"
    if not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    line = ", ".join("%s=%s" % (k, tot[k]) for k in ("states", "transitions", "cases", "evaluations", "nontrivial", "skipped") if tot[k])
    print("%s %s: %s exhaustive=%s %.1fs" % (prop, tier, line, not capped, wall))
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v["case"])))
        shown = {}
        for v in viol:
            shown.setdefault(v["sub"], v)
        for n, v in enumerate(list(shown.values())[:5]):
            path = os.path.join(rd, "%s_%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, **v, "how": "python replay.py " + path}, f, indent=1)
            print("  %s %s\n    %s" % (v["sub"], json.dumps(v["case"])[:400], v["msg"][:1500].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
