#!/opt/venv/bin/python
"""Mutation campaign (a development tool, no check uses it).

mutate.py list FILE...                 -> JSON lines, one mutant each: file, function, line, old, new, start, end
mutate.py one REPO PROP BUDGET         -> runs the quick explorations of PROP against REPO in random order, stops at
                                          the first violation; prints killed/survived/partial
mutate.py campaign IN.jsonl OUT.jsonl  -> 8 at a time: copies /repo/src, applies the mutant, runs its checks
"""
import ast, json, os, random, re, shutil, subprocess, sys, time, multiprocessing as mp
SRC = "/repo/src/tight_binding_redweasel/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPFN = re.compile(r"plot|print|__repr__|__str__|_repr_|write_pretty|log_")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: None, ast.FloorDiv: "/", ast.Mod: "*"}


def mutants(fname):
    text = open(SRC + fname).read()
    lines = text.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = text.encode()
    tree = ast.parse(text)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    res = []

    def add(fn, n, new, kind):
        s, e = pos(n)
        res.append(dict(file=fname, function=fn, line=n.lineno, start=s, end=e, old=raw[s:e].decode(), new=new, kind=kind))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            if isinstance(n, ast.FunctionDef) and SKIPFN.search(n.name):
                return
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for b in body:
                walk(b, fn)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    walk(d, fn)
            return
        if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s = seg(n)
            if s.startswith(("print", "warnings", "plt.", "ax.", "logger")):
                return
            add(fn, n, "pass", "del-call")
        if isinstance(n, ast.AugAssign):
            add(fn, n, "pass", "del-aug")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(fn, n, "pass", "del-" + seg(n))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(n.left), seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                add(fn, n, f"{a} {o} {b}", "cmp")
        if isinstance(n, ast.BinOp):
            a, b = seg(n.left), seg(n.right)
            if isinstance(n.op, ast.MatMult):
                if not isinstance(n.left, ast.BinOp):
                    add(fn, n, f"(({b}) @ ({a}))", "swap@")
            elif BIN.get(type(n.op)) and not isinstance(n.left, (ast.Constant,)) or isinstance(n.op, (ast.Add, ast.Sub)):
                if type(n.op) in BIN:
                    add(fn, n, f"(({a}) {BIN[type(n.op)]} ({b}))", "bin")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(fn, n, f"({seg(n.operand)})", "unary")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(fn, n, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(fn, n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(fn, n, str(n.value + 1), "const")
                if n.value >= 1:
                    add(fn, n, str(n.value - 1), "const")
            elif isinstance(n.value, float) and n.value >= 1e-3:
                add(fn, n, repr(n.value * 1.5), "const")
            return
        if isinstance(n, ast.If):
            add(fn, n.test, f"(not ({seg(n.test)}))", "negate")
            if not n.orelse:
                add(fn, n.test, "True", "if-true")
            add(fn, n.test, "False", "if-false")
        if isinstance(n, ast.IfExp):
            add(fn, n.test, f"(not ({seg(n.test)}))", "negate")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            at = n.func.attr
            if at in ("conj", "copy", "flatten", "reshape", "swapaxes", "transpose") and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "np"):
                add(fn, n, seg(n.func.value), "strip-" + at)
            elif at in ("conj", "real", "imag", "abs", "sort", "unique", "array", "copy", "round", "exp", "sqrt", "cumsum") and n.args and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
                add(fn, n, "(" + seg(n.args[0]) + ")", "strip-np." + at)
            elif at in ("cos", "sin", "min", "max", "zeros", "ones", "argmin", "argmax", "floor", "ceil") and isinstance(n.func.value, ast.Name) and n.func.value.id == "np":
                sw = dict(cos="sin", sin="cos", min="max", max="min", zeros="ones", ones="zeros", argmin="argmax", argmax="argmin", floor="ceil", ceil="floor")[at]
                add(fn, n.func, "np." + sw, "swapfn")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id in ("sorted", "reversed", "list", "abs", "round", "int") and n.args:
                add(fn, n, "(" + seg(n.args[0]) + ")", "strip-" + n.func.id)
            if n.func.id in ("min", "max"):
                add(fn, n.func, "max" if n.func.id == "min" else "min", "swapfn")
            if n.func.id == "print":
                return
        if isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"):
            add(fn, n, seg(n.value), "strip-" + n.attr)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, "")
    out = []
    for m in res:
        t = raw[:m["start"]] + m["new"].encode() + raw[m["end"]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        out.append(m)
    return out


def one(repo, prop, budget):
    os.environ["VERIF_REPO"] = repo
    sys.path.insert(0, HERE)
    import importlib
    from mc import core, driver
    core.CASE_LIMIT = min(core.CASE_LIMIT, 60)
    driver.prepare()
    m = importlib.import_module("mc.props." + prop.lower())
    subs = list(m.subs("quick"))
    core._SUBS = subs
    out_fd = os.dup(1)
    core._silence()
    deadline = time.time() + budget
    jobs = []
    for si, s in enumerate(subs):
        if isinstance(s, core.BFS):
            jobs += [("bfs", si, r) for r in s.roots("quick")]
        else:
            cs = list(s.cases("quick"))
            n = max(1, min(len(cs), 40))
            jobs += [("enum", si, cs[i::n]) for i in range(n)]
    random.Random(1).shuffle(jobs)
    res = "survived"
    for kind, si, p in jobs:
        if time.time() > deadline:
            res = "partial"
            break
        dl = min(deadline, time.time() + 45)
        o = core._work((kind, si, p, "quick", dl))
        if o["viol"]:
            v = o["viol"][0]
            res = "killed " + v["sub"] + " " + v["msg"].strip().splitlines()[-1][:150]
            break
    os.write(out_fd, (res + "\n").encode())
    os._exit(0)


def work(m):
    d = f"/tmp/mutw/w{os.getpid()}"
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo/src", d + "/src"], check=True)
        for x in ("tests", "README.md"):
            if os.path.exists("/repo/" + x):
                subprocess.run(["cp", "-a", "/repo/" + x, d + "/"], check=True)
    f = d + "/src/tight_binding_redweasel/" + m["file"]
    raw = open(SRC + m["file"], "rb").read()
    if raw[m["start"]:m["end"]].decode() != m["old"]:
        i = raw.find(m["old"].encode(), max(0, m["start"] - 400))
        if i < 0 or i > m["start"] + 400:
            return dict(m, result={"stale": "stale"}, time=0)
        m["start"], m["end"] = i, i + len(m["old"].encode())
    open(f, "wb").write(raw[:m["start"]] + m["new"].encode() + raw[m["end"]:])
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = {}
    cwd = d + "/cwd"
    os.makedirs(cwd, exist_ok=True)
    t = time.time()
    try:
        for p in m["props"]:
            try:
                q = subprocess.run(["/opt/venv/bin/python", "-B", HERE + "/tools/mutate.py", "one", d, p, str(m.get("budget", 240))], env=env, cwd=cwd,
                                   capture_output=True, text=True, timeout=m.get("budget", 240) + 120)
                r[p] = q.stdout.strip() or ("killed crash " + q.stderr.strip()[-200:])
            except subprocess.TimeoutExpired:
                r[p] = "killed timeout"
            if r[p].startswith("killed"):
                break
    finally:
        open(f, "wb").write(raw)
    m["result"] = r
    m["time"] = round(time.time() - t, 1)
    return m


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in sys.argv[2:]:
            for m in mutants(f):
                print(json.dumps(m))
    elif sys.argv[1] == "one":
        one(sys.argv[2], sys.argv[3], float(sys.argv[4]))
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        n = int(os.environ.get("MUT_JOBS", 8))
        with mp.Pool(n) as pool, open(sys.argv[3], "a") as out:
            for m in pool.imap_unordered(work, ms):
                out.write(json.dumps(m) + "\n")
                out.flush()
