"""C09: symmetrisation of tensors is the projection onto the invariant tensors of the group (complete tensor bases)."""
import itertools
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, close
from .c07 import menu, elements, build

LEVEL = "exploration"
ASSUMPTIONS = ["left indices transform with the inverse of the operation and right indices with the operation itself (rank parameter of the function); a linear map is decided by its values on a basis"]

SPLITS = [(l, n - l) for n in range(0, 5) for l in range(n + 1)]


def action(m, T, rank):
    """reference: one index after the other, plain tensordot"""
    inv = np.linalg.inv(m)
    out = np.asarray(T)
    n = rank[0] + rank[1]
    for ax in range(n):
        mat = inv if ax < rank[0] else m.T
        out = np.moveaxis(np.tensordot(mat, out, axes=(1, ax)), 0, ax)
    return out


_g = {}


def groups(dim):
    if dim not in _g:
        _g[dim] = [n for n in menu() if build(n).dim() == dim]
    return _g[dim]


def cases(tier):
    for dim in (1, 2, 3):
        for g in groups(dim):
            for rank in SPLITS:
                for ps in (False, True):
                    yield {"dim": dim, "group": g, "rank": list(rank), "pseudo": ps}


def run(c):
    dim, rank, ps = c["dim"], tuple(c["rank"]), c["pseudo"]
    n = sum(rank)
    sym = build(c["group"])
    ops = list(elements(sym).values())
    if len(ops) * dim ** (2 * n) > (40000 if TIER == "quick" else 2000000):
        # too expensive for the quick tier: a generic tensor instead of the complete basis
        t = gen(9, (dim,) * n)
        r = sym.symmetrize(t, rank=rank, pseudo_tensor=ps)
        sg = [np.sign(np.linalg.det(m)) if ps else 1 for m in ops]
        close(r, sum(action(m, t, rank) * x for m, x in zip(ops, sg)) / len(ops), "group mean of a generic tensor of rank %s" % (rank,))
        close(sym.symmetrize(r, rank=rank, pseudo_tensor=ps), r, "symmetrising twice")
        return {"n": 2, "nontrivial": True, "outcome": ("generic", len(ops), n)}
    # the projector as the plain group mean on the complete basis
    basis = np.eye(dim ** n).reshape((dim ** n,) + (dim,) * n)
    cnt = 0
    images = []
    for b in basis:
        b0 = b.copy()
        r = sym.symmetrize(b, rank=rank, pseudo_tensor=ps)
        require(np.array_equal(b, b0), "the tensor that was passed in is modified")
        require(np.shape(r) == (dim,) * n, "shape %s", np.shape(r))
        images.append(np.asarray(r))
        ref = sum(action(m, b, rank) * (np.sign(np.linalg.det(m)) if ps else 1) for m in ops) / len(ops)
        close(r, ref, "group mean of a basis tensor of rank %s" % (rank,))
        cnt += 1
    P = np.array([i.reshape(-1) for i in images])  # rows: image of the basis vectors
    close(P @ P, P, "symmetrising twice")
    for i, r in enumerate(images):
        for m in ops:
            close(action(m, r, rank) * (np.sign(np.linalg.det(m)) if ps else 1), r, "a symmetrised tensor is changed by the operation %s" % (m.tolist(),))
            cnt += 1
        close(sym.symmetrize(r, rank=rank, pseudo_tensor=ps), r, "symmetrising twice")
    # linearity, integer and nested list input
    t = gen(5, (dim,) * n) if n else np.array(0.7)
    close(sym.symmetrize(t, rank=rank, pseudo_tensor=ps).reshape(-1), np.asarray(t).reshape(-1) @ P, "linearity")
    ti = np.round(3 * t).astype(int)
    close(sym.symmetrize(ti.tolist(), rank=rank, pseudo_tensor=ps).reshape(-1), ti.reshape(-1) @ P, "integer lists")
    tc = t + 1j * (gen(6, (dim,) * n) if n else 0.3)
    close(np.asarray(sym.symmetrize(tc, rank=rank, pseudo_tensor=ps)).reshape(-1), np.asarray(tc).reshape(-1) @ P, "linearity for complex tensors")
    if rank == (1, 1):
        close(sym.symmetrize(ti, pseudo_tensor=ps).reshape(-1), ti.reshape(-1) @ P, "default rank")
    close(np.trace(P), np.round(np.trace(P)), "dimension of the invariant space", 1e-8)
    # the dimension must be the number of trivial characters
    chi = np.mean([np.trace(m) ** rank[1] * np.trace(np.linalg.inv(m)) ** rank[0] * (np.sign(np.linalg.det(m)) if ps else 1) for m in ops])
    close(np.trace(P), chi, "dimension of the invariant space", 1e-8)
    return {"n": cnt, "nontrivial": len(ops) > 1 and n > 0, "outcome": (len(ops), n, int(round(float(np.trace(P)))))}


TIER = "quick"


def subs(tier):
    global TIER
    TIER = tier
    return [Enum("projection", cases, run, "every group of the menu x rank 0-4 with every left/right split x proper/pseudo on the complete tensor basis")]
