"""C21: linear-algebra helpers against their definitions (plain loops, brute force, exact perturbations)."""
import itertools
import math
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, genc, close, raises
from tight_binding_redweasel import linalg as LA

LEVEL = "model_checking"
ASSUMPTIONS = ["overlap matrices are hermitian positive definite (condition number below 100)",
               "lattice points closer than 1e-9 to the sphere surface are not decided",
               "gradients are compared with difference quotients only for isolated eigenvalues and a common real/complex type per matrix",
               "conjugate gradients: operator and right hand side of a common type"]

BATCH = [(), (1,), (3,), (0,), (2, 2), (1, 3), (2, 0)]
HK = ["zero", "eye", "diag", "degdiag", "antidiag", "int", "real", "complex", "mixed"]
SK = ["eye", "near", "diag", "real", "complex", "oneoff"]


def hmat(kind, n, tag):
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "eye":
        return np.eye(n) * 1.5
    if kind == "diag":
        return np.diag([3.0, -1.0, 2.0, 0.5][:n])
    if kind == "degdiag":
        return np.diag([1.0, 0.0, 1.0, 0.0][:n])
    if kind == "antidiag":
        return np.eye(n)[::-1] * 1.0
    if kind == "int":
        a = np.array([[(i * j + i + j) % 4 - 1 for j in range(n)] for i in range(n)])
        return a
    if kind == "real":
        a = gen(tag, (n, n))
        return a + a.T
    if kind == "complex":
        a = genc(tag, (n, n))
        return a + a.conj().T
    if kind == "mixed":
        a = genc(tag, (n, n))
        v = np.linalg.qr(a)[0]
        return v @ np.diag([1.0, 1.0, 2.0, 2.0][:n]) @ v.conj().T
    raise KeyError(kind)


def smat(kind, n, tag):
    if kind == "eye" or kind == "oneoff":
        return np.eye(n)
    if kind == "near":
        return np.eye(n) * (1 + 1e-11)
    if kind == "diag":
        return np.diag([1.0, 2.0, 0.5, 1.3][:n])
    a = gen(tag + 50, (n, n)) if kind == "real" else genc(tag + 50, (n, n))
    return np.eye(n) + 0.4 * (a @ a.conj().T) / n


def stack(fn, batch, shape):
    m = int(np.prod(batch))
    if m == 0:
        x = fn(0)
        return np.zeros(batch + shape, dtype=x.dtype)
    arr = np.array([fn(i) for i in range(m)])
    return arr.reshape(batch + shape)


def flat(a, tail):
    return a.reshape((-1,) + tail) if a.size or a.shape else a


def run_geigh(c):
    n, batch = c["n"], tuple(c["batch"])
    H = stack(lambda i: hmat(c["H"], n, 10 * i + n), batch, (n, n))
    S = stack(lambda i: smat("complex" if c["S"] == "oneoff" and i == 1 else c["S"], n, 10 * i + n), batch, (n, n))
    if c.get("const"):   # one overlap matrix for the whole batch
        S = np.broadcast_to(smat(c["S"], n, 3), batch + (n, n))
    H0, S0 = H.copy(), S.copy()
    cnt = 0
    la, ev = LA.geigh(H, S)
    la2 = LA.geigvalsh(H, S)
    close(H, H0, "H unchanged", 0)
    close(S, S0, "S unchanged", 0)
    require(la.shape == batch + (n,), "eigenvalue shape %s", la.shape)
    require(la2.shape == batch + (n,), "geigvalsh shape %s", la2.shape)
    require(ev.shape == batch + (n, n), "eigenvector shape %s", ev.shape)
    require(not np.iscomplexobj(la) and not np.iscomplexobj(la2), "eigenvalues must be real")
    for idx in np.ndindex(*batch):
        h, s, e, v = H[idx], S[idx], la[idx], ev[idx]
        require(np.all(np.diff(e) >= -1e-10), "ascending eigenvalues %s", str(e))
        close(h @ v, s @ v * e, "H v = e S v", 1e-9)
        close(v.conj().T @ s @ v, np.eye(n) + 0j * 0, "v^H S v = 1", 1e-9)
        close(la2[idx], e, "geigvalsh", 1e-9)
        # independent eigenvalues: roots of the standard problem
        L = np.linalg.cholesky(s)
        Li = np.linalg.inv(L)
        close(e, np.linalg.eigvalsh(Li @ h @ Li.conj().T), "eigenvalues", 1e-8)
        cnt += 5
    return dict(n=cnt + 4, nontrivial=cnt > 0, outcome=str(np.round(la.ravel()[:4], 3)))


def run_grad(c):
    n, batch, m = c["n"], tuple(c["batch"]), c["m"]
    H = stack(lambda i: hmat(c["H"], n, 10 * i + n), batch, (n, n))
    S = stack(lambda i: smat(c["S"], n, 10 * i + n), batch, (n, n))
    cplx = c["d"] == "complex"

    def pert(tag):
        return stack(lambda i: np.array([hmat("complex" if cplx else "real", n, tag + 7 * i + 31 * j) for j in range(m)]).reshape((m, n, n)), batch, (m, n, n))
    dH = pert(5)
    dS = pert(9) * (0 if c["dS"] == 0 else 0.3)
    args = [x.copy() for x in (H, S, dH, dS)]
    out = LA.geigh_grad(H, S, dH, dS)
    for x, y in zip(args, (H, S, dH, dS)):
        close(y, x, "arguments unchanged", 0)
    la, gr, ev = out
    require(la.shape == batch + (n,), "eigenvalue shape %s", la.shape)
    require(gr.shape == batch + (m, n), "gradient shape %s", gr.shape)
    require(ev.shape == batch + (n, n), "vector shape %s", ev.shape)
    cnt = 0
    outs = [(la, gr, ev)]
    if c["S"] == "eye" and c["dS"] == 0:
        o2 = LA.eigh_grad(H, dH)
        outs.append(o2)
    for la, gr, ev in outs:
        for idx in np.ndindex(*batch):
            h, s = H[idx], S[idx]
            e0 = la[idx]
            L = np.linalg.inv(np.linalg.cholesky(s))
            close(e0, np.linalg.eigvalsh(L @ h @ L.conj().T), "eigenvalues", 1e-8)
            close(h @ ev[idx], s @ ev[idx] * e0, "vectors", 1e-8)
            iso = [i for i in range(n) if min([abs(e0[i] - e0[j]) for j in range(n) if j != i], default=1) > 0.05]
            for j in range(m):
                def at(t):
                    hh, ss = h + t * dH[idx][j], s + t * dS[idx][j]
                    L = np.linalg.inv(np.linalg.cholesky(ss))
                    return np.linalg.eigvalsh(L @ hh @ L.conj().T)
                t = 1e-4
                fd = (8 * (at(t) - at(-t)) - (at(2 * t) - at(-2 * t))) / (12 * t)
                for i in iso:
                    close(gr[idx][j, i], fd[i], "derivative of eigenvalue", 1e-6)
                    cnt += 1
                # the sum over each group of equal levels is basis independent
                lev = np.round(e0, 6)
                for x in set(lev):
                    g = lev == x
                    others = np.abs(e0[~g] - x)
                    if others.size and others.min() < 0.05:
                        continue
                    close(gr[idx][j][g].sum(), fd[g].sum(), "trace of the derivative over a level", 1e-5)
                    cnt += 1
    return dict(n=cnt, nontrivial=cnt > 0)


def arrays(kind, shape, tag):
    if kind == "int":
        return (np.arange(int(np.prod(shape))).reshape(shape) * 3 + tag) % 7 - 3
    if kind == "real":
        return gen(tag, shape) if shape else np.array(gen(tag))
    if kind == "complex":
        return genc(tag, shape)
    if kind == "bool":
        return (np.arange(int(np.prod(shape))).reshape(shape) + tag) % 2 == 0
    raise KeyError(kind)


def run_blocks(c):
    """direct_sum / kron of 1..3 blocks with every shape, listing dimension and type"""
    lists = [tuple(x) for x in c["lists"]]
    mats = [arrays(k, lst + tuple(s), i + 1) for i, (s, k, lst) in enumerate(zip(c["shapes"], c["kinds"], lists))]
    cp = [m.copy() for m in mats]
    r = LA.direct_sum(*[m.tolist() if c.get("aslist") else m for m in mats])
    if len(mats) == 1:
        close(np.asarray(r), mats[0], "single summand", 0)
        close(np.asarray(LA.kron(mats[0])), mats[0], "single factor", 0)
        return dict(n=2)
    lst = np.broadcast_shapes(*lists)
    R, C = sum(s[0] for s in c["shapes"]), sum(s[1] for s in c["shapes"])
    want = np.zeros(lst + (R, C), dtype=complex)
    for idx in np.ndindex(*lst):
        r0 = c0 = 0
        for m, (a, b) in zip(mats, c["shapes"]):
            want[idx + (slice(r0, r0 + a), slice(c0, c0 + b))] = np.broadcast_to(m, lst + (a, b))[idx]
            r0, c0 = r0 + a, c0 + b
    close(r, want, "direct sum", 1e-15)
    if not c.get("aslist"):
        require(np.iscomplexobj(r) == any(np.iscomplexobj(m) for m in mats), "type %s of the direct sum", str(r.dtype))
    for m, x in zip(mats, cp):
        close(m, x, "argument unchanged", 0)
    require(not any(np.shares_memory(r, m) for m in mats if m.size), "result shares memory with an argument")
    cnt = 3
    if all(a == b for a, b in c["shapes"]) and not c.get("aslist"):
        mats2 = [arrays("real", lst2 + tuple(s), i + 11) for i, (s, lst2) in enumerate(zip(c["shapes"], lists))]
        f = [m.astype(complex) for m in mats]
        close(LA.direct_sum(*f) @ LA.direct_sum(*mats2), LA.direct_sum(*[a @ b for a, b in zip(f, mats2)]), "product of direct sums", 1e-12)
        cnt += 1
    if not lists[0] and not any(lists):
        k = LA.kron(*mats)
        shapes = c["shapes"]
        w = np.ones((1, 1), dtype=complex)
        for m, (a, b) in zip(mats, shapes):
            p, q = w.shape
            n = np.zeros((p * a, q * b), dtype=complex)
            for i, j, x, y in itertools.product(range(p), range(q), range(a), range(b)):
                n[i * a + x, j * b + y] = w[i, j] * m[x, y]
            w = n
        close(k, w, "kronecker product", 1e-13)
        cnt += 1
    return dict(n=cnt)


def run_merge(c):
    shape = tuple(c["shape"])
    a = np.arange(int(np.prod(shape))).reshape(shape)
    cnt = 0
    for start in range(-len(shape), len(shape)):
        s = start % len(shape)
        for count in range(1, len(shape) - s + 1):
            r = LA.merge_axes(a, start, count)
            want = shape[:s] + (int(np.prod(shape[s:s + count])),) + shape[s + count:]
            require(r.shape == want, "merge_axes(%s, %d, %d): shape %s", shape, start, count, r.shape)
            require(np.array_equal(r.ravel(), a.ravel()), "element order")
            for idx in np.ndindex(*shape):
                m = 0
                for q in range(s, s + count):
                    m = m * shape[q] + idx[q]
                require(r[idx[:s] + (m,) + idx[s + count:]] == a[idx], "element %s", str(idx))
            cnt += 1
    if len(shape) >= 2:
        require(LA.merge_axes(a).shape == shape[:-2] + (shape[-2] * shape[-1],), "default arguments")
    require(raises(lambda: LA.merge_axes(a, 0, 0), AssertionError), "count 0 refused")
    require(raises(lambda: LA.merge_axes(a, len(shape), 1), AssertionError), "axis out of range refused")
    require(raises(lambda: LA.merge_axes(a, -len(shape) - 1, 1), AssertionError), "negative axis out of range refused")
    return dict(n=cnt + 3)


def lattice(c):
    d = c["dim"]
    k = c["basis"]
    if k == "cubic":
        A = np.eye(d)
    elif k == "generic":
        A = np.eye(d) + 0.5 * gen(3 + d, (d, d))
    elif k == "hex":
        A = np.eye(d)
        if d > 1:
            A[:2, :2] = [[1, 0.5], [0, 3**0.5 / 2]]
    elif k == "fcc":
        A = (np.ones((d, d)) - np.eye(d)) / 2 if d > 1 else np.eye(1) / 2
    elif k == "long":
        A = np.diag([0.6, 2.5, 1.1][:d])
    elif k == "lefthanded":
        A = np.diag([-1.0, 1.2, 0.7][:d])
    else:
        raise KeyError(k)
    U = np.array(c["U"])
    return A @ U


def unimodular(d, m):
    out = []
    for e in itertools.product(range(-m, m + 1), repeat=d * d):
        M = np.array(e).reshape(d, d)
        if abs(round(np.linalg.det(M))) == 1:
            out.append(M.tolist())
    return out


def run_sphere(c):
    A = lattice(c)
    d = len(A)
    A0 = A.copy()
    # a box which is certainly large enough: |n_i| <= |row i of inv(A)| * dist
    Ai = np.linalg.inv(A)
    cnt = tot = 0
    for dist in c["dist"]:
        box = [int(math.floor(np.linalg.norm(Ai[i]) * dist + 1e-9)) for i in range(d)]
        pts = np.array(list(itertools.product(*[range(-b, b + 1) for b in box])))
        x = pts @ A.T
        r = np.linalg.norm(x, axis=-1)
        if np.any(np.abs(r - dist) < 1e-9):
            dist = dist + 1.3e-4
            if np.any(np.abs(r - dist) < 1e-9):
                continue
        want = {tuple(p) for p in pts[r < dist]}
        got = LA.lattice_in_sphere(A, dist)
        require(got.ndim == 2 and got.shape[1] == d, "shape %s", got.shape)
        n = got @ Ai.T
        require(np.allclose(n, np.round(n), atol=1e-7), "a returned point is no lattice point")
        got_n = [tuple(int(y) for y in np.round(q)) for q in n]
        require(len(got_n) == len(set(got_n)), "points listed twice")
        require(set(got_n) == want, "radius %s: missing %s, too many %s", dist, str(sorted(want - set(got_n))[:4]), str(sorted(set(got_n) - want)[:4]))
        cnt += 1
        tot += len(want)
    close(A, A0, "lattice unchanged", 0)
    return dict(n=cnt, nontrivial=tot > cnt, outcome=tot)


def run_cloud(c):
    p, q = np.array(c["p"], float), np.array(c["q"], float)
    if p.ndim == 1:
        p, q = p[:, None], q[:, None]
    p0, q0 = p.copy(), q.copy()
    n, m = len(p), len(q)
    d = LA.pointcloud_distance(p, q)
    close(p, p0, "argument unchanged", 0)
    close(q, q0, "argument unchanged", 0)
    D = np.linalg.norm(p.reshape(n, 1, -1) - q.reshape(1, m, -1), axis=-1)
    best = min(sum(D[i, j] for i, j in enumerate(pr)) for pr in itertools.permutations(range(m), n))
    same = sorted(map(tuple, p.reshape(n, -1))) == sorted(map(tuple, q.reshape(m, -1)))
    require(d >= best - 1e-12, "distance %s is below every one to one assignment (%s)", d, best)
    if n == m:
        require((d < 1e-9) == same, "distance %s for %s multisets", d, "equal" if same else "different")
    # greedy rule of the function: every point takes the closest partner which is left, ties in any way
    states = {((), 0.0)}
    for i in range(n):
        nxt = set()
        for used, s in states:
            left = [j for j in range(m) if j not in used]
            mn = min(D[i, j] for j in left)
            for j in left:
                if D[i, j] <= mn + 1e-12:
                    nxt.add((tuple(sorted(used + (j,))), round(s + mn, 10)))
        states = nxt
    vals = [s for _, s in states]
    require(any(abs(d - v) < 1e-8 for v in vals), "distance %s, greedy matching gives %s", d, str(vals[:3]))
    if c.get("lists"):
        close(LA.pointcloud_distance(c["p"], c["q"]), d, "list arguments", 1e-12)
    # higher dimensional points are only flattened
    e = LA.pointcloud_distance(np.stack([p, p], axis=-1), np.stack([q, q], axis=-1))
    close(e, LA.pointcloud_distance(np.concatenate([p, p], axis=1), np.concatenate([q, q], axis=1)), "flattened points", 1e-12)
    return dict(n=4, nontrivial=d > 0, outcome=round(float(d), 6))


def spd(kind, n, tag):
    if kind == "eye":
        return np.eye(n)
    if kind == "twice":
        return 2 * np.eye(n)
    if kind == "diag":
        return np.diag([1.0, 4.0, 0.25, 2.0, 1.0, 3.0][:n])
    if kind == "deg":
        return np.diag([1.0, 1.0, 3.0, 3.0, 3.0, 1.0][:n])
    a = gen(tag, (n, n)) if kind == "real" else genc(tag, (n, n))
    return a @ a.conj().T + 0.5 * np.eye(n)


def run_cg(c):
    shape = tuple(c["shape"])
    n = int(np.prod(shape))
    M = spd(c["A"], n, n)
    cplx = c["A"] == "complex"
    calls = []

    def A(x):
        calls.append(1)
        require(x.shape == shape, "operator called with shape %s", x.shape)
        if c.get("ident"):
            return x
        return (M @ x.ravel()).reshape(shape)
    bk = c["b"]
    b = {"zero": np.zeros(shape), "gen": gen(17, shape), "int": (np.arange(n) % 3 - 1).reshape(shape), "eig": M[:, 0].reshape(shape) * 1.0, "one": np.ones(shape), "tiny": gen(17, shape) * 1e-7, "big": gen(17, shape) * 1e6}[bk]
    if cplx:
        b = b + 0j if bk in ("zero", "one", "int", "eig") else b * (1 + 0.5j) + 0j
    want = np.linalg.solve(np.eye(n) if c.get("ident") else M, b.ravel()).reshape(shape)
    xk = c["x0"]
    x0 = {"none": None, "zero": np.zeros(shape), "exact": want.copy(), "gen": gen(23, shape), "int": (np.arange(n) % 2).reshape(shape)}[xk]
    if cplx and x0 is not None:
        x0 = x0 + 0j
    b0, xc = b.copy(), None if x0 is None else x0.copy()
    sc = max(1e-12, float(np.linalg.norm(b)))
    err = c["err"] * sc
    # CG without rounding needs at most n steps; default limit 2.5 n
    x = LA.conjugate_gradient_solve(A, b, x0=x0, err=err) if c["max_i"] is None else LA.conjugate_gradient_solve(A, b, x0=x0, err=err, max_i=c["max_i"])
    close(b, b0, "right hand side unchanged", 0)
    if x0 is not None:
        require(x0.dtype == xc.dtype, "start type")
        close(x0, xc, "start value unchanged", 0)
        require(not np.shares_memory(x, x0), "result shares memory with the start value")
    require(x.shape == shape, "shape %s", x.shape)
    K = np.eye(n) if c.get("ident") else M
    start = np.zeros(n) if x0 is None else xc.ravel()

    def en(v):   # error in the energy norm
        u = v - want.ravel()
        return float(np.sqrt(max(0, np.real(u.conj() @ K @ u))))
    require(np.all(np.isfinite(x)), "not finite")
    require(en(x.ravel()) <= en(start) * (1 + 1e-9) + 1e-12 * max(1, np.linalg.norm(want)), "energy error %s grew from %s", en(x.ravel()), en(start))
    if c["max_i"] is None:
        res = np.linalg.norm(K @ x.ravel() - b.ravel())
        require(res <= err * 1.01 + 1e-10 * max(sc, np.linalg.norm(K @ start)), "residual %s, threshold %s", res, err)
        require(len(calls) <= 2.5 * n + 5, "%d operator calls", len(calls))
    else:
        require(len(calls) <= c["max_i"] + 4, "%d operator calls with max_i=%s", len(calls), c["max_i"])
        # k steps of CG are optimal in the Krylov space: compare with the exact minimiser after as many steps
        steps = c["max_i"] + 1
        r0 = b.ravel() - K @ start
        cols = [r0]
        for _ in range(steps - 1):
            cols.append(K @ cols[-1])
        if np.linalg.norm(r0) > 1e-12 * sc:
            Q = []
            for v in cols:
                v = v / (np.linalg.norm(v) + 1e-300)
                for q in Q + Q:
                    v = v - q * (q.conj() @ v)
                nv = np.linalg.norm(v)
                if nv < 1e-7:
                    break
                Q.append(v / nv)
            Q = np.array(Q).T
            y = np.linalg.solve(Q.conj().T @ K @ Q, Q.conj().T @ r0)
            opt = en(start + Q @ y)
            require(en(x.ravel()) <= opt * (1 + 1e-6) + err * 2 + 1e-9 * max(1, en(start)), "after %d steps the energy error is %s, optimal %s", steps, en(x.ravel()), opt)
    return dict(n=4, nontrivial=bk != "zero" or xk not in ("none", "zero"))


def run_random(c):
    n = c["n"]
    np.random.seed(c["seed"])
    h = LA.random_hermitian(n)
    close(h, h.conj().T, "hermitian", 0)
    require(h.shape == (n, n) and (n == 1 or np.abs(h.imag).max() > 0), "complex hermitian matrix")
    u = LA.random_unitary(n)
    close(u @ u.conj().T, np.eye(n) + 0j, "unitary", 1e-12)
    return dict(n=2)


def subs(tier):
    th = tier == "thorough"
    ge = [dict(n=n, batch=b, H=h, S=s) for n in (1, 2, 3, 4) for b in BATCH for h in HK for s in SK if not (s == "oneoff" and int(np.prod(b)) < 2)]
    ge += [dict(n=n, batch=b, H=h, S=s, const=1) for n in (1, 2, 3) for b in ((3,), (2, 2)) for h in HK for s in ("eye", "real", "complex")]
    gr = [dict(n=n, batch=b, H=h, S=s, d=d, dS=x, m=m) for n in (1, 2, 3, 4) for b in BATCH for h in ("diag", "real", "complex", "degdiag", "mixed") for s in ("eye", "near", "real", "complex")
          for d in ("real", "complex") for x in (0, 1) for m in ((1, 2, 3) if th else (1, 3))]
    sh = [(1, 1), (2, 2), (1, 2), (3, 1), (0, 0), (0, 2)]
    ki = ["int", "real", "complex"]
    bl = [dict(shapes=[a], kinds=[k], lists=[l]) for a in sh for k in ki for l in ((), (2,))]
    for k2 in itertools.product(ki, repeat=2):
        for s2 in itertools.product(sh, repeat=2):
            bl.append(dict(shapes=s2, kinds=k2, lists=[(), ()]))
            bl.append(dict(shapes=s2, kinds=k2, lists=[(2,), (2,)]))
    for s2 in itertools.product(sh[:4], repeat=2):
        bl += [dict(shapes=s2, kinds=k2, lists=l2) for k2 in (("real", "complex"), ("complex", "int")) for l2 in (((1,), (3,)), ((3,), (1,)), ((2, 1), (1, 2)), ((2, 2), (2, 2)), ((0,), (0,)))]
        bl.append(dict(shapes=s2, kinds=("real", "int"), lists=[(), ()], aslist=1))
    for k3 in itertools.product(ki, repeat=3):
        for s3 in itertools.product(sh[:4] + ([sh[5]] if th else []), repeat=3):
            bl.append(dict(shapes=s3, kinds=k3, lists=[(), (), ()]))
    bl += [dict(shapes=[(1, 1), (2, 2), (1, 2), (2, 1)], kinds=k4, lists=[l] * 4) for k4 in itertools.product(ki, repeat=4) for l in ((), (2,))]
    me = [dict(shape=s) for nd in (1, 2, 3, 4) for s in itertools.product((1, 2, 3) if nd < 4 or th else (1, 2), repeat=nd)] + [dict(shape=s) for s in ((0,), (0, 2), (2, 0, 3), (2, 3, 4, 5), (2, 1, 3, 1, 2))]
    sp = []
    for d in (1, 2, 3):
        us = unimodular(d, 1) if d == 3 else unimodular(d, 3 if d == 2 else 1)
        if d == 3 and not th:
            us = us[::45]
        if d == 3:
            us = us + [[[1, 4, -3], [0, 1, 5], [0, 0, 1]], [[1, 0, 0], [3, 1, 0], [-4, 6, 1]]]
        if d == 2:
            us = us + [[[1, 7], [0, 1]], [[1, 0], [-9, 1]], [[5, 7], [2, 3]]]
        sp += [dict(dim=d, basis=b, U=u, dist=(0.3, 0.99, 1.0, 1.01, 1.45, 2.2) + ((3.3,) if d < 3 else ())) for b in ("cubic", "hex", "fcc", "generic", "long", "lefthanded") for u in us]
    vals = (0, 1, 3)
    cl = [dict(p=p, q=q, lists=1) for n in (1, 2, 3) for m in (1, 2, 3) if n <= m for p in itertools.product(vals, repeat=n) for q in itertools.product(vals, repeat=m)]
    grid = [(0, 0), (1, 0), (0, 2), (1, 2)]
    cl += [dict(p=p, q=q, lists=1) for n in (1, 2, 3) for p in itertools.product(grid, repeat=n) for q in itertools.product(grid, repeat=n)]
    if th:
        cl += [dict(p=p, q=q) for p in itertools.product((0, 1, 3), repeat=4) for q in itertools.product((0, 1, 3), repeat=4)]
    cg = [dict(shape=s, A=a, b=b, x0=x, err=e, max_i=mi) for s in ((1,), (2,), (3,), (4,), (6,), (2, 2), (2, 3), (1, 2, 3)) for a in ("eye", "twice", "diag", "deg", "real", "complex")
          for b in ("zero", "gen", "int", "eig", "one", "tiny", "big") for x in ("none", "zero", "exact", "gen", "int") for e in (1e-9, 1e-3) for mi in (None, 0, 1, 2)]
    cg += [dict(shape=s, A="eye", ident=1, b=b, x0=x, err=1e-9, max_i=mi) for s in ((1,), (3,), (2, 2)) for b in ("zero", "gen", "int", "one") for x in ("none", "zero", "gen") for mi in (None, 0, 1)]
    rd = [dict(n=n, seed=s) for n in (1, 2, 3, 4, 5) for s in range(20)]
    return [
        Enum("eigenproblem", lambda t: ge, run_geigh, "matrix size x batch shape x H pattern x S pattern"),
        Enum("eigenvalue derivatives", lambda t: gr, run_grad, "size x batch shape x H x S x perturbation type x overlap perturbation x number of variables"),
        Enum("blocks", lambda t: bl, run_blocks, "all shapes, types, listing dimensions of up to 4 blocks"),
        Enum("axes", lambda t: me, run_merge, "all shapes x every start and count"),
        Enum("sphere", lambda t: sp, run_sphere, "lattice x unimodular change of basis x radius, compared with brute force over a certain box"),
        Enum("point clouds", lambda t: cl, run_cloud, "every pair of small multisets"),
        Enum("conjugate gradients", lambda t: cg, run_cg, "operator x right hand side x start x threshold x iteration limit"),
        Enum("random matrices", lambda t: rd, run_random, "size x generator seed"),
    ]
