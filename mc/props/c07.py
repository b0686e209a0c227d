"""C07: point groups against plain sets of matrices: constructors, pairs, generators, classes, subgroups, histories."""
import itertools
import numpy as np
from ..core import BFS, Enum, Skip, Violation, require
from ..util import gen, close, raises
from tight_binding_redweasel.symmetry import Symmetry

LEVEL = "model_checking"
ASSUMPTIONS = ["groups of up to 120 operations", "matrices are identified when they agree to 5 decimals",
               "quotients exist as matrix groups only for normal subgroups with a complement; for others the documented ValueError/AssertionError is accepted",
               "products of space groups (which are infinite) are outside of the domain"]


def key(m):
    return tuple((np.round(np.asarray(m, float), 5) + 0.0).ravel().tolist())


def opset(ms):
    return {key(m): np.asarray(m, float) for m in ms}


def elements(sym):
    """the set of operations a Symmetry object stands for, from its public data"""
    S = [np.asarray(s, float) for s in sym.S]
    return opset(S + ([-s for s in S] if sym.inversion else []))


class TooBig(Exception):
    pass


def closure(ms, limit=400):
    d = len(ms[0])
    G = opset([np.eye(d)])
    gens = [np.asarray(m, float) for m in ms]
    todo = [np.eye(d)]
    while todo:
        a = todo.pop()
        for g in gens:
            c = a @ g
            k = key(c)
            if k not in G:
                G[k] = c
                todo.append(c)
                if len(G) > limit:
                    raise TooBig()
    return G


def audit(sym, want, what):
    """structural invariants of a Symmetry object and agreement with the expected set of operations"""
    d = sym.dim()
    close(np.asarray(sym.S[0], float), np.eye(d), what + ": first operation is the identity", tol=1e-7)
    E = elements(sym)
    n = len(sym.S) * (2 if sym.inversion else 1)
    require(len(E) == n, "%s: duplicates among the %d operations (%d distinct)", what, n, len(E))
    require(len(sym) == n, "%s: len is %d instead of %d", what, len(sym), n)
    require(set(E) == set(want), "%s: %d operations instead of %d (missing %s, extra %s)", what, len(E), len(want), list(set(want) - set(E))[:1], list(set(E) - set(want))[:1])
    ops = sym.get_symmetry_operations()
    require(len(ops) == n and set(opset(ops)) == set(want), "%s: get_symmetry_operations", what)
    close(ops[0], np.eye(d), what + ": first listed operation", tol=1e-7)


def is_group(E):
    for a in E.values():
        for b in E.values():
            if key(a @ b) not in E:
                return False
    return True


# ------------------------------------------------------------------ menu
r6 = lambda a: np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
HEX = np.array([[1, -0.5], [0, 3**.5 / 2]])
HEX3 = np.array([[1, -0.5, 0], [0, 3**.5 / 2, 0], [0, 0, 1.3]])
SHEAR = np.array([[1, 0.25, 0], [0, 1, 0.5], [0, 0, 2.0]])


def signed_perms(d, pm=True):
    out = []
    for p in itertools.permutations(range(d)):
        for s in itertools.product((1, -1) if pm else (1,), repeat=d):
            m = np.zeros((d, d))
            for i in range(d):
                m[i, p[i]] = s[i]
            out.append(m)
    return out


def det_pos(ms):
    return [m for m in ms if np.linalg.det(m) > 0]


def both(ms):
    ms = list(ms)
    return ms + [-m for m in ms]


def menu():
    """name -> (constructor, expected set of operations written down independently)"""
    I = lambda d: np.eye(d)
    M = {}
    rz = lambda n: [np.block([[r6(2 * np.pi * i / n), np.zeros((2, 1))], [np.zeros((1, 2)), np.ones((1, 1))]]) for i in range(n)]
    for d in (1, 2, 3):
        M["none%d" % d] = (lambda d=d: Symmetry.none(d), [I(d)])
        M["inv%d" % d] = (lambda d=d: Symmetry.inv(d), both([I(d)]))
    M["o1"] = (lambda: Symmetry.o1(False), [I(1)])
    M["o1i"] = (lambda: Symmetry.o1(True), both([I(1)]))
    for n in (1, 2, 3, 4, 5, 6):
        M["o2_%d" % n] = (lambda n=n: Symmetry.o2(n), [r6(2 * np.pi * i / n) for i in range(n)])
        for inv in (False, True):
            f = both if inv else list
            M["cyclic%d%s" % (n, "i" * inv)] = (lambda n=n, inv=inv: Symmetry.cyclic(n, inv), f(rz(n)))
            M["dihedral%d%s" % (n, "i" * inv)] = (lambda n=n, inv=inv: Symmetry.dihedral(n, inv), f([m @ a for m in rz(n) for a in (I(3), np.diag([-1.0, 1, 1]))]))
    for inv in (False, True):
        f = both if inv else list
        i = "i" * inv
        M["cubic" + i] = (lambda inv=inv: Symmetry.cubic(inv), f(det_pos(signed_perms(3))))
        M["perm3" + i] = (lambda inv=inv: Symmetry.perm3(inv), f(signed_perms(3, False)))
        M["even_perm3" + i] = (lambda inv=inv: Symmetry.even_perm3(inv), f(closure([[[0, 0, 1], [0, -1, 0], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]]).values()))
        M["mirror3" + i] = (lambda inv=inv: Symmetry.mirror3(inv), f([np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3) if np.prod(s) > 0]))
        for d in (1, 2, 3):
            if d == 1 and inv:
                continue
            x = np.diag([-1.0] + [1.0] * (d - 1))
            M["mirror_x%d%s" % (d, i)] = (lambda inv=inv, d=d: Symmetry.mirror_x(inv, d), f([I(d), x]))
        M["mirror_xy3" + i] = (lambda inv=inv: Symmetry.mirror_xy(inv, 3), f([I(3), np.diag([-1.0, -1, 1])]))
        M["tetra" + i] = (lambda inv=inv: Symmetry.tetrahedral(inv), det_pos(signed_perms(3)) if inv else
                          [m for m in det_pos(signed_perms(3)) if abs(np.trace(m) - 0) < 1e-9 or abs(np.trace(m) - 3) < 1e-9 or (np.count_nonzero(np.diag(m)) == 3)])
        M["icosa" + i] = (lambda inv=inv: Symmetry.icosahedral(inv), f(icosa()))
    M["square"] = (lambda: Symmetry.square(), signed_perms(2))
    # generated and converted groups
    M["hex2"] = (lambda: Symmetry.o2(6).transform(np.linalg.inv(HEX)), [np.linalg.inv(HEX) @ r6(np.pi / 3 * i) @ HEX for i in range(6)])
    M["hex3"] = (lambda: Symmetry.dihedral(6, True).transform(np.linalg.inv(HEX3)), [np.linalg.inv(HEX3) @ m @ a @ HEX3 for m in both(rz(6)) for a in (I(3), np.diag([-1.0, 1, 1]))])
    M["hex3p"] = (lambda: Symmetry.cyclic(3, False).transform(np.linalg.inv(HEX3)), [np.linalg.inv(HEX3) @ m @ HEX3 for m in rz(3)])
    M["sheared"] = (lambda: Symmetry.mirror3(True).transform(SHEAR), [SHEAR @ np.diag(s) @ np.linalg.inv(SHEAR) for s in itertools.product((1.0, -1.0), repeat=3)])
    # the same sets in other representations
    M["mirrors_inv"] = (lambda: Symmetry([I(3), np.diag([-1.0, 1, 1]), np.diag([1.0, -1, 1]), np.diag([-1.0, -1, 1])], True), [np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3)])
    M["mirrors_full"] = (lambda: Symmetry([np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3)], False), [np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3)])
    M["mirrors_full_inv"] = (lambda: Symmetry([np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3)], True), [np.diag(s) for s in itertools.product((1.0, -1.0), repeat=3)])
    M["td_inv"] = (lambda: Symmetry.from_generator([[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, -1]]], True), both(det_pos(signed_perms(3))))
    M["td"] = (lambda: Symmetry.from_generator([[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, -1]]], False), closure([[[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, -1]]]).values())
    M["c2x_inv"] = (lambda: Symmetry([I(3), np.diag([1.0, -1, -1])], True), both([I(3), np.diag([-1.0, 1, 1])]))
    M["square_inv"] = (lambda: Symmetry.from_generator([[[0, 1], [-1, 0]], [[1, 0], [0, -1]]], True), signed_perms(2))
    M["square_full_inv"] = (lambda: Symmetry(Symmetry.square().S, True), signed_perms(2))
    M["mirror2_inv"] = (lambda: Symmetry([I(2), np.diag([-1.0, 1])], True), [np.diag(s) for s in itertools.product((1.0, -1.0), repeat=2)])
    M["swap2"] = (lambda: Symmetry([I(2), [[0, 1], [1, 0]]], False), [I(2), np.array([[0.0, 1], [1, 0]])])
    M["swap2_inv"] = (lambda: Symmetry([I(2), [[0, 1], [1, 0]]], True), both([I(2), np.array([[0.0, 1], [1, 0]])]))
    M["reordered"] = (lambda: Symmetry([Symmetry.cubic(True).S[i] for i in [0] + list(range(23, 0, -1))], True), both(det_pos(signed_perms(3))))
    return M


def icosa():
    """rotations of the icosahedron with a vertex on z and a neighbouring one towards x, from its vertices"""
    c = 5**-.5
    v = [np.array([0, 0, 1.0])] + [np.array([2 * c * np.cos(a), 2 * c * np.sin(a), c]) for a in 2 * np.pi * np.arange(5) / 5]
    v = np.array(v + [-x for x in v]) @ np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1.0]])   # neighbour towards y, as implemented
    out = []
    base = np.stack([v[0], v[1], np.cross(v[0], v[1])], axis=1)
    for a in v:
        for b in v:
            if abs(a @ b - v[0] @ v[1]) < 1e-9:
                m = np.stack([a, b, np.cross(a, b)], axis=1) @ np.linalg.inv(base)
                w = (m @ v.T).T
                if all(np.min(np.linalg.norm(v - x, axis=-1)) < 1e-6 for x in w):
                    out.append(m)
    return out


def ccases(tier):
    for name in menu():
        yield {"group": name}


def crun(c):
    mk, want = menu()[c["group"]]
    want = opset(want)
    sym = mk()
    audit(sym, want, c["group"])
    E = elements(sym)
    require(is_group(E), "%s is not closed", c["group"])
    for m in E.values():
        require(key(np.linalg.inv(m)) in E, "inverse missing")
    if len(sym) <= 60 or c["group"] == "icosai":
        require(sym.check(), "check() rejects the group")
    ortho = all(np.allclose(m @ m.T, np.eye(len(m)), atol=1e-6) for m in E.values())
    require(bool(sym.is_orthogonal()) == ortho, "is_orthogonal is %s", sym.is_orthogonal())
    require(sym.space_dim() == sym.dim() == len(next(iter(E.values()))), "dimensions")
    # copies and derived objects do not share data
    cp = sym.copy()
    audit(cp, want, "copy")
    require(cp == sym and sym == cp, "copy is not equal")
    cp.S *= 1
    cp.S[0] = cp.S[0] * 2
    audit(sym, want, "after changing a copy")
    tr = opset([m.T for m in E.values()])
    audit(sym.transpose(), tr, "transpose")
    audit(sym.dual(), opset([np.linalg.inv(m).T for m in E.values()]), "dual")
    audit(sym.transpose().transpose(), want, "double transpose")
    d = sym.dim()
    for B in (np.eye(d) * 2, np.triu(np.ones((d, d))), gen(3, (d, d)) + 2 * np.eye(d)):
        t = sym.transform(B)
        audit(t, opset([B @ m @ np.linalg.inv(B) for m in E.values()]), "transform")
        audit(t.transform(np.linalg.inv(B)), want, "transform there and back")
        audit(sym, want, "transform changed the group it was called on")
    # a truncated list is no group and check() says so
    if len(sym.S) > 2:
        broken = Symmetry(sym.S[:-1], sym.inversion)
        if not is_group(elements(broken)):
            require(not broken.check(), "check() accepts a list that is not closed")
    require(raises(lambda: Symmetry(np.asarray(sym.S)[::-1]), ValueError) or np.allclose(sym.S[-1], np.eye(d)), "list without leading identity accepted")
    require(raises(lambda: Symmetry([np.eye(d), 2 * np.eye(d)]), ValueError), "scaling accepted as a symmetry")
    return {"n": 16, "outcome": (len(sym), sym.inversion)}


# ------------------------------------------------------------------ classes, subgroups
def conj_classes(E):
    left = dict(E)
    out = []
    inv = {k: np.linalg.inv(m) for k, m in E.items()}
    while left:
        k, m = next(iter(left.items()))
        cl = {key(g @ m @ inv[h]) for h, g in E.items()}
        out.append(frozenset(cl))
        for x in cl:
            left.pop(x, None)
    return out


def clcases(tier):
    for name in menu():
        if name.startswith("icosa"):
            yield {"group": name, "what": "classes"}
            continue
        for what in ("classes", "equiv", "subgroups"):
            yield {"group": name, "what": what}


def clrun(c):
    mk, want = menu()[c["group"]]
    sym = mk()
    E = elements(sym)
    if c["what"] == "classes":
        got = sym.conjugacy_classes()
        require(sum(len(x) for x in got) == len(E), "classes hold %d operations instead of %d", sum(len(x) for x in got), len(E))
        require(set(frozenset(key(m) for m in x) for x in got) == set(conj_classes(E)), "conjugacy classes differ")
        return {"n": len(got), "outcome": sorted(len(x) for x in got)}
    if c["what"] == "equiv":
        for tag, f in (("trace", lambda m: round(float(np.trace(m)), 5) + 0.0), ("det", lambda m: round(float(np.linalg.det(m)), 5) + 0.0),
                       ("first", lambda m: tuple(np.round(m[:, 0], 5) + 0.0)), ("all", lambda m: 0), ("none", key)):
            got = sym.equivalence_classes(lambda a, b: f(a) == f(b))
            ref = {}
            for k, m in E.items():
                ref.setdefault(f(m), set()).add(k)
            require(sum(len(x) for x in got) == len(E) and sorted(sorted(key(m) for m in x) for x in got) == sorted(sorted(x) for x in ref.values()), "equivalence classes by %s", tag)
        return {"n": 5}
    # every union of conjugacy classes with the identity that is a group is the kernel of a class function
    cl = conj_classes(E)
    ident = key(np.eye(sym.dim()))
    rest = [x for x in cl if ident not in x]
    if len(rest) > 9:
        rest = sorted(rest, key=lambda x: (len(x), sorted(x)))
    n = 0
    for r in range(len(rest) + 1):
        for comb in itertools.combinations(rest, r):
            N = {ident}.union(*comb)
            if len(E) % len(N):
                continue
            group = is_group({k: E[k] for k in N})
            if not group and (len(rest) > 6 or len(N) * 2 > 60):
                continue
            f = lambda m: 0.0 if key(m) in N else 1.0
            if group:
                audit(sym.subgroup(f), {k: E[k] for k in N}, "subgroup of %d operations" % len(N))
            else:
                require(raises(lambda: sym.subgroup(f), (AssertionError, ValueError)), "subgroup with %d operations that is not closed", len(N))
            n += 1
    audit(sym.subgroup(lambda m: np.linalg.det(m)), {k: m for k, m in E.items() if np.linalg.det(m) > 0}, "proper subgroup")
    return {"n": n, "outcome": n}


# ------------------------------------------------------------------ pairs
_menu = {}


def build(name):
    """fresh object (the operations of the slower constructors are copied)"""
    if name not in _menu:
        _menu[name] = menu()[name][0]()
    return _menu[name].copy()


def pcases(tier):
    M = menu()
    dim = {n: M[n][0]().dim() for n in M}
    big = {"icosa", "icosai"}
    for a in M:
        for b in M:
            if dim[a] == dim[b] and not (tier == "quick" and (a in big or b in big) and a != b and len(M[b][1]) > 4 and len(M[a][1]) > 4):
                yield {"a": a, "b": b}


def prun(c):
    A, B = build(c["a"]), build(c["b"])
    a, b = elements(A), elements(B)
    require((A == B) == (set(a) == set(b)), "== is %s", A == B)
    require((A != B) == (set(a) != set(b)), "!= is %s", A != B)
    require((B in A) == (set(b) <= set(a)), "containment is %s for %d in %d operations", B in A, len(b), len(a))
    try:
        want = closure(list(a.values()) + list(b.values()), 240)
    except TooBig:
        want = None
    out = [len(a), len(b), set(b) <= set(a)]
    if want is not None and len(want) <= 240:
        P = A * B
        audit(P, want, "product")
        require(A in P and B in P, "factors are not contained in the product")
        out.append(len(want))
    elif len(a) + len(b) <= 6:   # (the construction notices an infinite group only after many products)
        require(raises(lambda: A * B, ValueError), "infinite product accepted")
        out.append("inf")
    if set(b) <= set(a):
        normal = all(key(g @ h @ np.linalg.inv(g)) in b for g in a.values() for h in b.values())
        try:
            Q = A / B
        except (ValueError, AssertionError):
            Q = None
        if Q is not None and normal:
            q = elements(Q)
            audit(Q, q, "quotient")
            require(is_group(q) and set(q) <= set(a), "quotient is not a subgroup of representatives")
            require(len(q) == len(a) // len(b), "quotient has %d instead of %d operations", len(q), len(a) // len(b))
            cos = {frozenset(key(x @ h) for h in b.values()) for x in q.values()}
            require(len(cos) == len(q), "quotient holds two operations of the same coset")
            out.append("q%d" % len(q))
        if Q is None and normal:
            # the search for a complement is documented to give up with a ValueError, but the trivial cases and index two must work
            require(len(b) not in (1, len(a)), "no quotient by a trivial subgroup")
            if len(a) == 2 * len(b) and any(key(x) not in b and key(x @ x) == key(np.eye(len(x))) for x in a.values()):
                raise Violation("no quotient although a reflection outside of the normal subgroup represents it")
            out.append("no")
        if Q is not None and not normal:
            raise Violation("quotient by a subgroup that is not normal")
        # quotient leaves the operands alone
    else:
        require(raises(lambda: A / B, (ValueError, AssertionError)), "quotient by something that is no subgroup")
    audit(A, a, "left operand")
    audit(B, b, "right operand")
    return {"n": 6, "outcome": out}


# ------------------------------------------------------------------ generators
def gcases(tier):
    pools = {"cubic": signed_perms(3), "square": signed_perms(2), "hex": None}
    for pool in pools:
        n = {"cubic": 48, "square": 8, "hex": 24}[pool]
        for inv in (False, True):
            for r in (1, 2):
                for g in itertools.combinations(range(n), r):
                    if tier == "quick" and pool == "cubic" and r == 2 and (g[0] + g[1]) % 2 and not inv:
                        continue
                    yield {"pool": pool, "gens": list(g), "inv": inv}
            if tier == "thorough" or pool == "square":
                for g in itertools.combinations(range(n), 3):
                    if pool != "cubic" or sum(g) % 4 == 0:
                        yield {"pool": pool, "gens": list(g), "inv": inv}


def grun(c):
    if c["pool"] == "hex":
        Bi = np.linalg.inv(HEX3)
        pool = [Bi @ m @ HEX3 for m in menu_ops("dihedral6i")]
    else:
        pool = signed_perms(3 if c["pool"] == "cubic" else 2)
    G = [pool[i] for i in c["gens"]]
    d = len(G[0])
    want = closure(G + ([-np.eye(d)] if c["inv"] else []))
    sym = Symmetry.from_generator(np.array(G), c["inv"])
    audit(sym, want, "generated group")
    require(sym.check(), "check() rejects a generated group")
    if len(G) > 1:
        audit(Symmetry.from_generator(np.array(G[::-1] + [np.eye(d)] + G), c["inv"]), want, "generated group, other order")
    return {"n": 3, "outcome": len(want)}


_ops = {}


def menu_ops(name):
    if name not in _ops:
        _ops[name] = list(opset(menu()[name][1]).values())
    return _ops[name]


def infcases(tier):
    for a in (0.1, 1.0, 2 * np.pi / 7.5):
        yield {"kind": "rot", "x": a}
    yield {"kind": "shear", "x": 1.0}
    yield {"kind": "mixed", "x": 0.3}


def infrun(c):
    if c["kind"] == "rot":
        if abs(c["x"] - 2 * np.pi / 7.5) < 1e-12:
            audit(Symmetry.from_generator([r6(c["x"])], False), closure([r6(c["x"])]), "15-fold rotations")
            return {"n": 1}
        G = [r6(c["x"])]
    elif c["kind"] == "shear":
        G = [np.array([[1, 1], [0, 1.0]])]
    else:
        x = np.eye(3)
        x[:2, :2] = r6(c["x"])
        G = [x, [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]
    require(raises(lambda: Symmetry.from_generator(G, False), ValueError), "infinite group accepted")
    require(raises(lambda: Symmetry.from_generator([np.eye(2), np.diag([2.0, 1])], False), ValueError), "scaling accepted")
    return {"n": 2}


# ------------------------------------------------------------------ space groups
def scases(tier):
    M = menu()
    for d in (1, 2, 3):
        for shift in ("zero", "mirror", "all", "center") + (("glide",) if d > 1 else ()):
            for name in [n for n in M if build(n).dim() == d and len(M[n][1]) <= 48]:
                if tier == "quick" and len(M[name][1]) > 12 and (shift in ("all", "center") or name not in ("cubici", "td", "tetra", "hex3")):
                    continue
                yield {"dim": d, "shift": shift, "group": name}


def srun(c):
    d = c["dim"]
    base = list(opset(menu()[c["group"]][1]).values())
    base.sort(key=lambda m: np.linalg.norm(m - np.eye(d)))
    t = np.zeros((len(base), d))
    if c["shift"] == "mirror":
        t[:, 0] = [0.5 if np.linalg.det(m) < 0 else 0.0 for m in base]
    elif c["shift"] == "glide":
        t[:, :2] = [[0.5, -0.5] if np.linalg.det(m) < 0 else [0.0, 0.0] for m in base]
    elif c["shift"] == "all":
        t[1:] = 0.25
    ops = list(zip(base, t))
    if c["shift"] == "center":
        ops = ops + [(m, x + 0.5) for m, x in ops]
    P = np.array([np.block([[m, x[:, None]], [np.zeros((1, d)), np.ones((1, 1))]]) for m, x in ops])
    sg = Symmetry.space_group(P, dim=d)
    require(sg.projective and sg.dim() == d + 1 and sg.space_dim() == d and len(sg) == len(P), "space group")
    pt = opset(base)
    audit(Symmetry.point_group(P, dim=d), pt, "point group")
    audit(sg.ignore_translation(), pt, "point group by ignoring translations")
    require(not sg.ignore_translation().projective and sg.projective, "projective flags")
    strict = opset([m for m, x in ops if not np.any(x)])
    if is_group(strict):
        audit(Symmetry.strict_point_group(P, dim=d), strict, "strict point group")
        sp = sg.remove_translation()
        audit(sp, strict, "strict point group by removing translations")
        require(not sp.projective, "projective flag of the strict point group")
    # plain matrices
    pg = Symmetry.point_group(np.array(base), dim=d)
    audit(pg, pt, "point group of plain matrices")
    require(not Symmetry.space_group(np.array(base), dim=d).projective, "plain matrices are projective")
    require(raises(lambda: Symmetry.space_group(np.array([np.eye(d + 2)]), dim=d), AssertionError), "wrong dimension accepted")
    # change of basis: rotation part and translation
    B = gen(5, (d, d)) + 2 * np.eye(d)
    T = sg.transform(B)
    require(T.projective and len(T) == len(P), "transformed space group")
    want = opset([np.block([[B @ m @ np.linalg.inv(B), (B @ x)[:, None]], [np.zeros((1, d)), np.ones((1, 1))]]) for m, x in ops])
    require(set(opset(T.S)) == set(want), "transformed space group")
    tt = sg.transpose()
    require(tt.projective, "the transposed space group is no longer marked as projective")
    require(set(opset(tt.S)) == set(opset([np.swapaxes(p, 0, 1) for p in P])), "transposed space group")
    require(sg.copy().projective and sg.dual().projective, "projective flag of copy and dual")
    return {"n": 12, "outcome": (len(base), len(strict))}


# ------------------------------------------------------------------ histories
class St:
    def __init__(self, sym, E):
        self.sym, self.E = sym, E


HOPS = {3: ["mirror_x3", "mirror_xy3", "inv3", "cyclic4", "even_perm3", "c2x_inv"], 2: ["mirror_x2", "inv2", "o2_4", "swap2", "o2_3"], 1: ["o1i", "none1"]}


def hroots(tier):
    for n in ("none1", "inv1", "none2", "mirror_x2", "swap2_inv", "o2_3", "none3", "inv3", "mirror_x3i", "mirrors_inv", "mirror3", "td", "cyclic4i"):
        yield {"group": n}


def hmake(root):
    mk, w = menu()[root["group"]]
    return St(mk(), opset(w))


def hops(root, st, tier):
    d = st.sym.dim()
    out = [["mul", n] for n in HOPS[d]] + [["rmul", n] for n in HOPS[d][:2]] + [["transform", 0], ["transpose"], ["dual"], ["copy"], ["rewrite"], ["proper"], ["square_sub"], ["same"]]
    return out


def hstep(st, op):
    d = st.sym.dim()
    B = np.triu(np.ones((d, d))) if d > 1 else np.array([[2.0]])
    if op[0] in ("mul", "rmul"):
        o = menu()[op[1]][0]()
        E2 = elements(o)
        try:
            want = closure(list(st.E.values()) + list(E2.values()), 48)
        except TooBig:
            return None
        before = st.sym
        st.sym = st.sym * o if op[0] == "mul" else o * st.sym
        audit(before, st.E, "factor")
        st.E = want
    elif op[0] == "transform":
        st.sym = st.sym.transform(B)
        st.E = opset([B @ m @ np.linalg.inv(B) for m in st.E.values()])
    elif op[0] == "transpose":
        st.sym = st.sym.transpose()
        st.E = opset([m.T for m in st.E.values()])
    elif op[0] == "dual":
        st.sym = st.sym.dual()
        st.E = opset([np.linalg.inv(m).T for m in st.E.values()])
    elif op[0] == "copy":
        st.sym = st.sym.copy()
    elif op[0] == "rewrite":
        ops = list(st.sym.get_symmetry_operations())
        new = Symmetry([ops[0]] + ops[:0:-1], False)
        require(new == st.sym and st.sym == new, "the full list of operations is another group")
        st.sym = new
    elif op[0] == "proper":
        st.sym = st.sym.subgroup(lambda m: np.linalg.det(m))
        st.E = {k: m for k, m in st.E.items() if np.linalg.det(m) > 0}
    elif op[0] == "square_sub":
        # class function: trace; kernel of a faithful representation is trivial
        st.sym = st.sym.subgroup(lambda m: abs(np.trace(m)))
        st.E = {k: m for k, m in st.E.items() if abs(abs(np.trace(m)) - len(m)) < 1e-7}
    elif op[0] == "same":
        p = st.sym * st.sym
        require(p == st.sym, "product with itself")
        st.sym = p


def hcheck(st):
    audit(st.sym, st.E, "state")
    require(is_group(st.E) if len(st.E) <= 48 else True, "reference is no group")
    require(st.sym in st.sym and st.sym == st.sym, "contains and equals itself")


def hcanon(st):
    return (frozenset(st.E), st.sym.inversion, len(st.sym.S))


def subs(tier):
    return [Enum("constructors", ccases, crun, "every constructor and argument: operations written down independently, derived groups, copies"),
            Enum("classes and subgroups", clcases, clrun, "every group: conjugacy classes, equivalence classes, every normal subgroup"),
            Enum("pairs", pcases, prun, "every ordered pair of groups: ==, in, *, /"),
            Enum("generators", gcases, grun, "every generator set of up to 2 (3) operations of the cubic, square and hexagonal groups"),
            Enum("infinite groups", infcases, infrun, "generators of infinite groups are refused"),
            Enum("space groups", scases, srun, "every group x translation pattern"),
            BFS("histories", hroots, hmake, hops, hstep, hcheck, hcanon, lambda r, t: 3 if t == "quick" else 5, "every sequence of products, transformations and subgroups")]
