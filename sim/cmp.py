"""Comparing results, and digesting them into run hashes."""
import hashlib
import numpy as np


def flat(x, name='out'):
    """Nested results -> list of (name, array | other)."""
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in flat(x[k], f'{name}.{k}')]
    if isinstance(x, (list, tuple)):
        return [y for i, v in enumerate(x) for y in flat(v, f'{name}[{i}]')]
    if isinstance(x, (np.ndarray, np.generic, float, int, complex, bool)):
        return [(name, np.asarray(x))]
    return [(name, x)]


def digest(x):
    h = hashlib.sha1()
    for name, a in flat(x):
        h.update(name.encode())
        if isinstance(a, np.ndarray):
            h.update(str((a.shape, a.dtype)).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(repr(a).encode())
    return h.hexdigest()[:16]


def tol_of(a):
    return 2e-5 if a.dtype in (np.float32, np.complex64) else 1e-9


def diff(a, b, tol=None):
    """None if `a` & `b` agree up to rounding, else a description. Scale of the
    tolerance is each array's largest finite magnitude."""
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return f"{len(fb)} values returned, expected {len(fa)}"
    for (n, x), (_, y) in zip(fa, fb):
        d = diff1(x, y, tol)
        if d:
            return f"{n}: {d}"
    return None


def diff1(x, y, tol=None):
    isx, isy = isinstance(x, np.ndarray), isinstance(y, np.ndarray)
    if not (isx and isy):
        return None if (isx == isy and x == y) else f"{y!r}, expected {x!r}"
    if x.shape != y.shape:
        return f"shape {y.shape}, expected {x.shape}"
    if x.dtype != y.dtype:
        return f"dtype {y.dtype}, expected {x.dtype}"
    if x.size == 0 or x.tobytes() == y.tobytes():
        return None
    if x.dtype.kind not in 'fc':
        bad = np.argwhere(np.atleast_1d(x != y))
        if len(bad):
            i = tuple(bad[0]) if x.ndim else ()
            return (f"{len(bad)} of {x.size} differ, first at {tuple(map(int, i))}:"
                    f" {y[i]!r}, expected {x[i]!r}")
        return None
    fx, fy = np.isfinite(x), np.isfinite(y)
    nf = ~fx | ~fy
    if nf.any():
        same = (x == y) | (np.isnan(x) & np.isnan(y))
        bad = np.argwhere(np.atleast_1d(nf & ~same))
        if len(bad):
            i = tuple(bad[0]) if x.ndim else ()
            return (f"{len(bad)} of {x.size} differ in non-finite values, first at "
                    f"{tuple(map(int, i))}: {y[i]!r}, expected {x[i]!r}")
    ok = fx & fy
    if not ok.any():
        return None
    sc = float(np.abs(x[ok]).max())
    # below `tiny`, values have fewer bits
    t = (tol or tol_of(x)) * (sc if sc > 0 else 1) + 100 * np.finfo(x.dtype).tiny
    with np.errstate(all='ignore'):
        e = np.where(ok, np.abs(x - y), 0)
    bad = np.argwhere(np.atleast_1d(e > t))
    if len(bad):
        i = tuple(bad[0]) if x.ndim else ()
        return (f"{len(bad)} of {x.size} differ by up to {float(e.max()):.3g} (scale "
                f"{sc:.3g}), first at {tuple(map(int, i))}: {y[i]!r}, expected {x[i]!r}")
    return None


def diff_exact(a, b):
    """None if equal in every bit but NaN's and zero's signs, else a description."""
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return f"{len(fb)} values returned, expected {len(fa)}"
    for (n, x), (_, y) in zip(fa, fb):
        if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray)):
            d = diff1(x, y)
        elif x.shape != y.shape or x.dtype != y.dtype:
            d = f"{y.dtype} {y.shape}, expected {x.dtype} {x.shape}"
        else:
            d = where(~((x == y) | ((x != x) & (y != y))), x, y)
        if d:
            return f"{n}: {d}"
    return None


def where(m, x, y):
    bad = np.argwhere(np.atleast_1d(m))
    if len(bad):
        i = tuple(map(int, bad[0])) if x.ndim else ()
        return f"{len(bad)} of {x.size} differ, first at {i}: {y[i]!r}, expected {x[i]!r}"
    return None


def diff_bound(x, y, bound):
    """Elements may differ by up to `bound`, elementwise."""
    if isinstance(x, str) or isinstance(y, str):
        return diff1(x, y)
    if x.shape != y.shape or x.dtype != y.dtype:
        return f"{y.dtype} {y.shape}, expected {x.dtype} {x.shape}"
    with np.errstate(all='ignore'):
        ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= bound)
    return where(~ok, x, y)


def diff_ssq(x, y, tol=None):
    """Like `diff1` for synchrosqueezed planes (..., bins, time), except that a
    contribution whose frequency is within rounding of the edge between two bins
    may be in either: in a column, what one bin lacks a neighbour bin must have."""
    d = diff1(x, y, tol)
    if d is None or x.shape != y.shape or x.dtype != y.dtype or x.ndim < 2:
        return d
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        return d
    X, Y = x.reshape(-1, *x.shape[-2:]), y.reshape(-1, *y.shape[-2:])
    sc = float(np.abs(X).max())
    t = 4 * (tol or tol_of(x)) * (sc if sc > 0 else 1) + 100 * np.finfo(x.dtype).tiny
    ncols = 0
    for D in Y - X:
        big = np.abs(D) > t
        cols = np.flatnonzero(big.any(axis=0))
        ncols += len(cols)
        for j in cols:
            k = np.flatnonzero(big[:, j])
            if len(k) != 2 or k[1] - k[0] != 1 or abs(D[:, j].sum()) > 2 * t:
                return d
    if ncols > max(1, 0.01 * X.shape[0] * X.shape[2]):
        return d
    return None
