"""The step rules driven directly: every sequence of gradients over a menu of signs and sizes (two coordinates at a time with different histories), mixed with re-initialisation and changes of mode, up to the depth bound,
for every combination of step size, decay, momentum and resilient bounds, compared step by step with the definition evaluated per coordinate.
Earlier results and the gradients handed in must not change, and a re-initialised rule must behave like a new one. The resilient step sizes are read off the differences of successive parameters.
The sample-based natural gradient is driven over all sequences of samples and must answer exactly on every n-th."""

import itertools
import numpy as np
from mc.canon import close
from mc import history

ASSUMPTIONS = ['the initial resilient step lies within its bounds', 'the learning rate is a setting of the rule, not part of its history: it keeps its decayed value over re-initialisation']
MENU = [np.array(g) for g in ([1.0, -1.0], [1.0, 0.0], [-2.0, 3.0], [0.0, 0.0], [0.5, 0.25])]
INITS = [np.array([0.3, -0.7]), np.array([5.0, 1.0])]
EXTRA = ['init0', 'init1', 'mode']


class Plain(object):
    def __init__(self, alpha, decay, mom):
        self.alpha, self.decay, self.mom = alpha, decay, mom

    def init(self, x):
        self.x = [float(v) for v in x]
        self.v = [0.0] * len(x)

    def step(self, g):
        for i in range(len(self.x)):
            self.v[i] = self.mom * self.v[i] + self.alpha * g[i]
            self.x[i] += self.v[i]
        self.alpha *= self.decay
        return list(self.x)


class Resilient(object):
    def __init__(self, up, down, lo, hi, first):
        self.up, self.down, self.lo, self.hi, self.first = up, down, lo, hi, first

    def init(self, x):
        self.x = [float(v) for v in x]
        self.d = [self.first] * len(x)
        self.last = [0.0] * len(x)

    def step(self, g):
        for i in range(len(self.x)):
            self.x[i] += (g[i] > 0) * self.d[i] - (g[i] < 0) * self.d[i]
            s = self.last[i] * g[i]
            if s > 0:
                self.d[i] = min(self.d[i] * self.up, self.hi)
            elif s < 0:
                self.d[i] = max(self.d[i] * self.down, self.lo)
            # after a change of sign, the next step neither grows nor shrinks
            self.last[i] = 0.0 if s < 0 else g[i]
        return list(self.x)


PLAIN = [(a, d, m) for a in (0.1, 1.0) for d in (1.0, 0.5) for m in (0.0, 0.9)]
RES = [(1.2, 0.5, 1e-6, 5.0, 0.1), (2.0, 0.25, 0.1, 0.35, 0.1), (1.5, 0.5, 0.05, 0.2, 0.2), (3.0, 0.1, 0.3, 0.3, 0.3)]


def machine(plain, res, mode):
    from pybrain.auxiliary.gradientdescent import GradientDescent
    d = GradientDescent()
    d.alpha, d.alphadecay, d.momentum = plain
    d.etaplus, d.etaminus, d.deltamin, d.deltamax, d.deltanull = res
    d.rprop = mode == 'rprop'
    return d


def drive(ctx, mode, plain, res, depth, first):
    def replay(h):
        d = machine(plain, res, mode)
        ref = {'plain': Plain(*plain), 'rprop': Resilient(*res)}
        cur = mode
        x0 = INITS[0].copy()
        d.init(x0)
        ref[cur].init(x0)
        kept = []
        steps = 0
        for k, o in enumerate(h):
            what = h[:k + 1]
            if o < len(MENU):
                g = MENU[o].copy()
                got = d(g, 0.0) if k % 2 else d.descent(g)
                want = ref[cur].step(MENU[o])
                ctx.trans()
                if not ctx.check(close(got, want, 1e-10), '%s:step' % cur, 'parameters after a step', got=got, want=want, history=[mode, plain, res, what]):
                    return None
                ctx.check(np.array_equal(g, MENU[o]), '%s:argument' % cur, 'the gradient handed in was changed', got=g, history=[mode, plain, res, what])
                kept.append((got, want))
                steps += 1
            else:
                e = EXTRA[o - len(MENU)]
                if e == 'mode':
                    cur = 'plain' if cur == 'rprop' else 'rprop'
                    d.rprop = cur == 'rprop'
                x0 = INITS[1 if e == 'init1' else 0].copy()
                keep = x0.copy()
                d.init(x0)
                ref[cur].init(x0)
                if k + 1 < len(h):
                    # the array it started from stays the caller's
                    x0 += 100.0
                    ctx.check(np.array_equal(x0, keep + 100.0), 'init:argument', 'init changed its argument', history=[mode, what])
        for got, want in kept:
            ctx.check(close(got, want, 1e-10), 'earlier', 'a result returned earlier has changed', got=got, want=want, history=[mode, plain, res, h])
        ctx.trace()
        return h
    history.bfs(ctx, len(MENU) + len(EXTRA), depth, replay, first=first, prune=False)


def bounds(ctx, depth):
    """observed step sizes: grow, shrink, stay, bounds, over every sequence of signs"""
    from pybrain.auxiliary.gradientdescent import GradientDescent
    for res in RES:
        up, down, lo, hi, d0 = res
        for h in itertools.product((-1.0, 0.0, 1.0), repeat=depth):
            d = machine((0.1, 1.0, 0.0), res, 'rprop')
            d.init(np.array([0.0]))
            x, size, sizes = 0.0, [], []
            for g in h:
                y = float(d(np.array([g * 0.7]))[0])
                sizes.append(y - x)
                x = y
                ctx.trans()
            ok = True
            for k, (g, s) in enumerate(zip(h, sizes)):
                ok &= ctx.check(np.sign(round(s, 12)) == g if g else abs(s) < 1e-12, 'bounds:direction', 'a step goes along the sign of its gradient, and nowhere without one', got=sizes, history=[res, h])
                if g:
                    ok &= ctx.check(lo - 1e-12 <= abs(s) <= hi + 1e-12, 'bounds:limits', 'a step size left its bounds', got=sizes, history=[res, h])
            # three steps in the same direction: the last one is grown (up to the bound)
            for k in range(2, depth):
                if h[k] and h[k] == h[k - 1] == h[k - 2] and (k == 2 or h[k - 3] != -h[k]):
                    ok &= ctx.check(close(abs(sizes[k]), min(abs(sizes[k - 1]) * up, hi), 1e-9), 'bounds:grow', 'steps in one direction do not grow by their factor', got=sizes, history=[res, h])
            for k in range(2, depth):
                if h[k - 2] and h[k - 2] == -h[k - 1] and h[k]:
                    grown = 1
                    ok &= ctx.check(abs(sizes[k]) <= abs(sizes[k - 1]) + 1e-12, 'bounds:shrink', 'a step after a change of sign is larger', got=sizes, history=[res, h])
            ctx.state((res, h))
            ctx.trace()


def natural(ctx):
    from pybrain.auxiliary.gradientdescent import NaturalGradient
    gs = [np.array(g) for g in ([1.0, 0.3], [-0.4, 1.0], [0.2, -1.3], [2.0, 1.0])]
    for n in (3, 4):
        for h in itertools.product(range(4), repeat=2 * n if n == 3 else n + 2):
            block = [gs[i] for i in h[:n]]
            blocks = [h[i:i + n] for i in range(0, len(h), n)]
            if any(len(b) == n and abs(np.linalg.det(np.cov(np.array([gs[i] for i in b]).T))) < 1e-6 for b in blocks):
                continue
            d = NaturalGradient(n)
            x = np.array([0.5, -0.5])
            d.init(x)
            want = x.copy()
            for k, i in enumerate(h):
                g = gs[i].copy()
                got = d(g)
                ctx.trans()
                g += 50.0       # the caller's array may be reused
                if (k + 1) % n:
                    ctx.check(got is None, 'natural:early', 'an estimate before enough samples were given', got=got, history=[n, h[:k + 1]])
                else:
                    s = np.array([gs[j] for j in h[k + 1 - n:k + 1]])
                    want = want + np.linalg.inv(np.cov(s.T)).dot(s.sum(0))
                    ctx.check(got is not None and close(got, want, 1e-7), 'natural:step', 'natural gradient step', got=got, want=want, history=[n, h[:k + 1]])
            ctx.check(np.array_equal(x, [0.5, -0.5]), 'natural:init', 'the initial array was changed', history=[n, h])
            ctx.state((n, h))
            ctx.trace()


def shapes(ctx):
    """one to four parameters, and gradients of the wrong length are refused"""
    for mode in ('plain', 'rprop'):
        for n in (1, 2, 3, 4):
            for m in (1, 2, 3, 4):
                d = machine(PLAIN[3], RES[0], mode)
                d.init(np.arange(n) * 1.0)
                ref = Plain(*PLAIN[3]) if mode == 'plain' else Resilient(*RES[0])
                ref.init(np.arange(n))
                ctx.state((mode, n, m))
                ctx.trans()
                g = [0.4 - i for i in range(m)]
                try:
                    got = [d(list(g)) for _ in range(3)]
                except Exception:
                    ctx.check(m != n, 'shapes', 'gradient refused', history=[mode, n, m])
                else:
                    ctx.check(m == n, 'shapes', 'gradient of another length accepted', history=[mode, n, m])
                    if m == n:
                        ctx.check(close(got, [ref.step(g) for _ in range(3)]), 'shapes:step', 'steps from a plain list', got=got, history=[mode, n, m])


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('bounds', bounds, (9 if deep else 7,)), ('natural', natural, ()), ('shapes', shapes, ())]
    d = 6 if deep else 5
    for i, p in enumerate(PLAIN if deep else PLAIN[1::2]):
        for f in (range(8) if deep else (None,)):
            js.append(('plain-%d-%s' % (i, f), drive, ('plain', p, RES[i % 4], d - 1 if not deep else d, None if f is None else [f])))
    for i, r in enumerate(RES):
        for f in range(8):
            js.append(('rprop-%d-%d' % (i, f), drive, ('rprop', PLAIN[i], r, d if i < 2 or deep else d - 1, [f])))
    return js
