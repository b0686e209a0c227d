"""Deterministic 'generic' values and comparison helpers used by the oracles."""
import itertools
import numpy as np
from .core import require, Violation


def gen(tag, shape=(), lo=-1.0, hi=1.0):
    """deterministic generic reals (no random generator, independent of VERIF_SEED)"""
    n = int(np.prod(shape)) if shape != () else 1
    i = np.arange(1, n + 1, dtype=float)
    x = np.sin(i * 12.9898 + (tag + 1) * 78.233 + i * i * 0.7137) * 43758.5453
    x = x - np.floor(x)
    x = lo + (hi - lo) * x
    return float(x[0]) if shape == () else x.reshape(shape)


def genc(tag, shape):
    return gen(tag, shape) + 1j * gen(tag + 1000, shape)


def herm(tag, n):
    a = genc(tag, (n, n))
    return (a + a.conj().T) / 2


def gen_k(dim, count=3, tag=7):
    """generic k points plus the special points 0 and the zone corner"""
    k = gen(tag + dim, (count, dim))
    return np.concatenate([k, np.zeros((1, dim)), np.full((1, dim), 0.5)], axis=0)


def close(a, b, msg, tol=1e-9, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "%s: shape %s instead of %s", msg, a.shape, b.shape)
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation("%s: non finite value %s" % (msg, str(a)[:200]))
    s = max(1.0, float(np.max(np.abs(b)))) if scale is None else scale
    d = float(np.max(np.abs(a - b)))
    if not d <= tol * s:
        i = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape) if a.shape else ()
        raise Violation("%s: %r instead of %r (max deviation %.3g, index %s)" % (msg, a[i], b[i], d, tuple(int(x) for x in i)))


def raises(fn, types=Exception):
    try:
        fn()
    except types:
        return True
    return False


def shells(dim, n):
    """neighbour list (0 first, one of +-r) sorted by length, a few shells"""
    box = list(itertools.product(range(-2, 3), repeat=dim))
    out = []
    for r in sorted(box, key=lambda r: (sum(x * x for x in r), r)):
        nz = [x for x in r if x]
        if nz and nz[0] < 0:
            continue
        out.append(r)
    return out[:n]
