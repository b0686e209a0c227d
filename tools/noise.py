#!/opt/venv/bin/python
"""A copy of the code whose floating point results differ in the last bits (what another order of
summation, another formula for the same number, another BLAS does): every `a @ b` and every call of the
numpy reductions and linear algebra routines below is multiplied by 1 + 2 eps h(value), |h| <= 1, for
results which are not short dyadic numbers.  The checks have to stay quiet on it.
noise.py SRC_REPO DST_REPO [ULPS]"""
import ast, os, shutil, sys

CALLS = {"einsum", "sum", "mean", "dot", "norm", "inv", "eigh", "eigvalsh", "solve", "svd", "det", "exp", "cos", "sin", "matmul", "trace", "cumsum", "prod", "lstsq", "pinv", "sqrt", "vdot", "tensordot", "std"}
HELPER = '''
def _nz(x):
    import numpy as _n
    if isinstance(x, tuple):
        return type(x)(*(_nz(y) for y in x)) if hasattr(x, "_fields") else tuple(_nz(y) for y in x)
    try:
        a = _n.asarray(x)
    except Exception:
        return x
    if a.dtype == _n.complex128:
        return _n_back(x, _nzr(_n.array(a.real)) + 1j * _nzr(_n.array(a.imag)))
    if a.dtype == _n.float64:
        return _n_back(x, _nzr(a))
    return x
def _n_back(x, r):
    import numpy as _n
    return r if isinstance(x, _n.ndarray) else r[()] if hasattr(r, "shape") else r
def _nzr(a):
    import numpy as _n
    with _n.errstate(all="ignore"):
        m, e = _n.frexp(_n.abs(a))
        h = ((m * 1048576.0 * 977.0) % 3.0).round() - 1.0
        short = (m * 4096 == _n.floor(m * 4096)) | ~_n.isfinite(a)
        return _n.where(short, a, a * (1.0 + ULPS * 2.0**-52 * _n.where(short, 0.0, h)))
'''


class Noise(ast.NodeTransformer):
    def wrap(self, n):
        return ast.Call(ast.Name("_nz", ast.Load()), [n], [])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return self.wrap(n) if isinstance(n.op, ast.MatMult) else n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in CALLS and not any(k.arg == "out" for k in n.keywords):
            return self.wrap(n)
        return n


def main():
    src, dst = sys.argv[1:3]
    ulps = float(sys.argv[3]) if len(sys.argv) > 3 else 2.0
    shutil.copytree(src, dst, symlinks=True)
    d = os.path.join(dst, "src", "tight_binding_redweasel")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f == "__init__.py":
            continue
        p = os.path.join(d, f)
        t = Noise().visit(ast.parse(open(p).read()))
        i = max([k for k, n in enumerate(t.body) if isinstance(n, ast.ImportFrom) and n.module == "__future__"], default=-1) + 1
        t.body[i:i] = ast.parse(HELPER.replace("ULPS", repr(ulps))).body
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")


if __name__ == "__main__":
    main()
