"""Every source of randomness pybrain uses, behind one seam.

install() replaces the functions of the modules `random` and `numpy.random` (and so scipy.random,
scipy.rand, scipy.randn) by dispatchers.  It must run before pybrain or scipy is imported, so that
'from random import choice' binds a dispatcher.  Outside `control(...)` the dispatchers call the real
generators (seeded by the runner).  Inside it, discrete draws are choice points of a Chooser (all
alternatives get explored) and real-valued draws come from a finite menu or a fixed script."""

import random as _r
import itertools
import contextlib
import numpy as _np
import numpy.random as _nr

_orig = {}
_active = [None]


def perm_unrank(seq, pick):
    pool = list(seq)
    out = []
    while pool:
        out.append(pool.pop(pick(len(pool))))
    return out


class Control(object):
    """unit / gauss: a list = menu of values explored exhaustively, or a callable giving the next value; randn, if given,
    is the (unlogged) source of randn(), which initialises parameters."""

    def __init__(self, chooser, unit=(0.0, 0.5, 0.999), gauss=(0.0,), perms='all', randn=None):
        self.ch = chooser
        self.unit_src = unit
        self.gauss_src = gauss
        self.randn_src = randn
        self.perms = perms
        self.log = []

    def _draw(self, src):
        if callable(src):
            return float(src())
        if len(src) == 1:
            return float(src[0])
        return float(src[self.ch.pick(len(src))])

    def unit(self):
        v = self._draw(self.unit_src)
        self.log.append(('u', v))
        return v

    def gauss(self):
        v = self._draw(self.gauss_src)
        self.log.append(('g', v))
        return v

    def index(self, n):
        v = self.ch.pick(n) if n > 1 else 0
        self.log.append(('i', v, n))
        return v

    def permutation(self, n):
        if self.perms == 'all':
            p = perm_unrank(range(n), self.index)
        elif self.perms == 'rot':          # n rotations and n reflections: cheap but order-sensitive
            k = self.index(2 * n) if n > 1 else 0
            p = [(k + i) % n for i in range(n)]
            if k >= n:
                p.reverse()
        else:
            p = list(range(n))
        return p


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (int, _np.integer)):
        return (int(size),)
    return tuple(int(x) for x in size)


def _fill(shape, fn):
    if shape is None or shape == ():
        return fn()
    out = _np.zeros(shape)
    flat = out.reshape(-1)
    for i in range(flat.shape[0]):
        flat[i] = fn()
    return out


def _bcast(c, fn, size, *params):
    """draws with (possibly array-valued) parameters, numpy style"""
    if size is None:
        arrs = [_np.asarray(p) for p in params]
        if all(a.ndim == 0 for a in arrs):
            return fn(*[float(a) for a in arrs])
        bs = _np.broadcast(*arrs) if len(arrs) > 1 else None
        shape = bs.shape if bs is not None else arrs[0].shape
        full = [_np.broadcast_to(a, shape).ravel() for a in arrs]
        out = _np.array([fn(*[float(f[i]) for f in full]) for i in range(len(full[0]))])
        return out.reshape(shape)
    shape = _shape(size)
    full = [_np.broadcast_to(_np.asarray(p), shape).ravel() for p in params]
    n = 1
    for s in shape:
        n *= s
    return _np.array([fn(*[float(f[i]) for f in full]) for i in range(n)]).reshape(shape)


# ---- random.* ------------------------------------------------------------------------------------
def _py_random(c):
    return c.unit()


def _py_uniform(c, a, b):
    return a + (b - a) * c.unit()


def _py_randrange(c, start, stop=None, step=1):
    r = range(int(start)) if stop is None else range(int(start), int(stop), int(step))
    if len(r) == 0:
        raise ValueError("empty range for randrange()")
    return r[c.index(len(r))]


def _py_randint(c, a, b):
    return _py_randrange(c, a, b + 1)


def _py_choice(c, seq):
    if len(seq) == 0:
        raise IndexError('Cannot choose from an empty sequence')
    return seq[c.index(len(seq))]


def _py_choices(c, population, weights=None, cum_weights=None, k=1):
    return [_py_choice(c, population) for _ in range(k)]


def _py_shuffle(c, x, random=None):
    items = [x[i] for i in range(len(x))]
    p = c.permutation(len(items))
    for i, j in enumerate(p):
        x[i] = items[j]


def _py_sample(c, population, k):
    pool = list(population)
    if not 0 <= k <= len(pool):
        raise ValueError("Sample larger than population or is negative")
    out = []
    for _ in range(k):
        out.append(pool.pop(c.index(len(pool))))
    return out


def _py_gauss(c, mu=0.0, sigma=1.0):
    return mu + sigma * c.gauss()


def _py_expo(c, lambd):
    return c.unit() / lambd


def _py_beta(c, a, b):
    return c.unit()


# ---- numpy.random.* ------------------------------------------------------------------------------
def _np_rand(c, *shape):
    return _fill(_shape(shape), c.unit)


def _np_randn(c, *shape):
    return _fill(_shape(shape), c.gauss if c.randn_src is None else lambda: c._draw(c.randn_src))


def _np_random(c, size=None):
    return _fill(_shape(size), c.unit)


def _np_normal(c, loc=0.0, scale=1.0, size=None):
    return _bcast(c, lambda m, s: m + s * c.gauss(), size, loc, scale)


def _np_uniform(c, low=0.0, high=1.0, size=None):
    return _bcast(c, lambda a, b: a + (b - a) * c.unit(), size, low, high)


def _np_standard_normal(c, size=None):
    return _fill(_shape(size), c.gauss)


def _np_mvn(c, mean, cov, size=None, **kw):
    mean = _np.asarray(mean, dtype=float)
    cov = _np.asarray(cov, dtype=float)
    w, v = _np.linalg.eigh(cov)
    root = v * _np.sqrt(_np.clip(w, 0, None))
    one = lambda: mean + root.dot(_np.array([c.gauss() for _ in range(len(mean))]))
    if size is None:
        return one()
    n = 1
    for s in _shape(size):
        n *= s
    return _np.array([one() for _ in range(n)]).reshape(_shape(size) + (len(mean),))


def _np_randint(c, low, high=None, size=None, dtype=int):
    lo, hi = (0, low) if high is None else (low, high)
    lo, hi = int(lo), int(hi)
    if hi <= lo:
        raise ValueError("low >= high")
    one = lambda: lo + c.index(hi - lo)
    if size is None:
        return one()
    return _fill(_shape(size), one).astype(int)


def _np_permutation(c, x):
    if isinstance(x, (int, _np.integer)):
        return _np.array(c.permutation(int(x)), dtype=int)
    a = _np.array(x)
    return a[_np.array(c.permutation(len(a)), dtype=int)]


def _np_shuffle(c, x):
    n = len(x)
    p = c.permutation(n)
    if isinstance(x, _np.ndarray):
        x[:] = x.copy()[_np.array(p, dtype=int)]
    else:
        items = list(x)
        for i, j in enumerate(p):
            x[i] = items[j]


def _np_choice(c, a, size=None, replace=True, p=None):
    pool = list(range(int(a))) if isinstance(a, (int, _np.integer)) else list(a)
    if size is None:
        return pool[c.index(len(pool))]
    n = 1
    for s in _shape(size):
        n *= s
    out = []
    for _ in range(n):
        i = c.index(len(pool))
        out.append(pool[i] if replace else pool.pop(i))
    return _np.array(out).reshape(_shape(size))


def _np_beta(c, a, b, size=None):
    return _bcast(c, lambda p, q: c.unit(), size, a, b)


def _np_binomial(c, n, p, size=None):
    return _bcast(c, lambda m, q: float(sum(1 for _ in range(int(m)) if c.unit() < q)), size, n, p)


def _np_exponential(c, scale=1.0, size=None):
    return _bcast(c, lambda s: s * c.unit(), size, scale)


_PY = dict(random=_py_random, uniform=_py_uniform, randrange=_py_randrange, randint=_py_randint,
           choice=_py_choice, choices=_py_choices, shuffle=_py_shuffle, sample=_py_sample,
           gauss=_py_gauss, normalvariate=_py_gauss, expovariate=_py_expo, betavariate=_py_beta)
_NP = dict(rand=_np_rand, randn=_np_randn, random=_np_random, random_sample=_np_random, ranf=_np_random,
           sample=_np_random, normal=_np_normal, uniform=_np_uniform, standard_normal=_np_standard_normal,
           multivariate_normal=_np_mvn, randint=_np_randint, permutation=_np_permutation,
           shuffle=_np_shuffle, choice=_np_choice, beta=_np_beta, binomial=_np_binomial,
           exponential=_np_exponential)


def _dispatcher(mod, name, orig, ctl):
    def f(*a, **kw):
        c = _active[0]
        if c is None:
            return orig(*a, **kw)
        return ctl(c, *a, **kw)
    f.__name__ = name
    return f


_installed = [False]


def install():
    if _installed[0]:
        return
    _installed[0] = True
    for mod, table in ((_r, _PY), (_nr, _NP)):
        for name, ctl in table.items():
            orig = getattr(mod, name, None)
            if orig is None:
                continue
            _orig[mod.__name__, name] = orig
            setattr(mod, name, _dispatcher(mod.__name__, name, orig, ctl))


def seed(n):
    _r.seed(n)
    _nr.seed(n)


def script(values):
    """a callable cycling through fixed, distinct values: real draws that are owned but not branched on"""
    it = itertools.cycle(values)
    return lambda: next(it)


def vdc(base=2, start=1):
    """van der Corput sequence: distinct, deterministic draws in (0,1)"""
    state = [start]

    def nxt():
        n = state[0]
        state[0] += 1
        v, den = 0.0, 1.0
        while n:
            den *= base
            n, rem = divmod(n, base)
            v += rem / den
        return v
    return nxt


def vdc_gauss(start=1):
    u = vdc(3, start)
    return lambda: 4.0 * (u() - 0.5)


@contextlib.contextmanager
def control(chooser, **kw):
    assert _installed[0]
    old = _active[0]
    c = Control(chooser, **kw)
    _active[0] = c
    try:
        yield c
    finally:
        _active[0] = old
