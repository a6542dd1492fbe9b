"""Canonical, hashable snapshots of live objects (for state dedup and before/after comparison)."""
import numpy as np


def snap(v, depth=8):
    if isinstance(v, (int, float, str, bytes, bool, type(None), complex)):
        return v
    if depth == 0:
        return repr(type(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('ao', v.shape, tuple(snap(x, depth - 1) for x in v.ravel()))
        return ('a', v.shape, v.tobytes() if v.size else b'', str(v.dtype))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return ('d', tuple(sorted(((repr(k), snap(x, depth - 1)) for k, x in v.items()), key=lambda t: t[0])))
    if isinstance(v, (set, frozenset)):
        return ('s', tuple(sorted((repr(snap(x, depth - 1)) for x in v))))
    if isinstance(v, (list, tuple)):
        return ('l', tuple(snap(x, depth - 1) for x in v))
    if hasattr(v, '__dict__'):
        return ('o', type(v).__name__, snap({k: x for k, x in v.__dict__.items()}, depth - 1))
    return repr(type(v))


def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    bad = np.isnan(a) != np.isnan(b)
    if bad.any():
        return False
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        ok = (d <= tol * (1.0 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(ok.all())


def rnd(v, n=9):
    """hashable, rounded"""
    if isinstance(v, (list, tuple)):
        return tuple(rnd(x, n) for x in v)
    if isinstance(v, np.ndarray):
        return (v.shape, tuple(round(float(x), n) + 0.0 for x in v.ravel()))
    if isinstance(v, (float, np.floating)):
        return round(float(v), n) + 0.0
    return v
