"""Gradient-estimating and distribution-based searches against reference models that only see the evaluated points and the
random draws: in every generation the points are decoded with the model's own state and must reproduce exactly the draws,
whatever the answers of the objective (every sequence over a small alphabet, with ties broken either way), for every
configuration, dimension 1-3, both directions; importance mixing on every outcome of its coins; the gradient step on every
gradient sequence."""

import itertools
import math
import numpy as np
from numpy import array, dot, outer, eye, zeros, ones, exp, sqrt, diag, floor
from scipy.linalg import expm
from mc.choice import explore, Chooser
from mc.core import StopJob
from mc import rng, optlib
import pybrain.optimization as po
from pybrain.auxiliary import GradientDescent, importanceMixing

ASSUMPTIONS = ['ties between equally fit samples may be broken either way', 'finite differences estimate the gradient without a baseline',
               'simultaneous perturbation makes no move in its first step', 'rank-one strategies draw each sample in one go']


# ------------------------------------------------------------------------------------------- running an optimiser
class Log(object):
    def __init__(self, answer):
        self.rec, self.memo, self.answer = [], {}, answer

    def __call__(self, x):
        p = tuple(float(v) for v in x)
        if p not in self.memo:
            self.memo[p] = self.answer(len(self.memo))
        self.rec.append((p, self.memo[p]))
        return self.memo[p]


def drive(cls, answer, x0, gens, script, minimize, ints=None, **kw):
    f = Log(answer)
    marks = []
    with rng.control(ints or Chooser(), unit=rng.vdc(2, 1 + 5 * script), gauss=rng.vdc_gauss(1 + 4 * script)) as ctl:
        o = cls(f, array(x0, dtype=float), minimize=minimize, **kw)
        marks.append((len(f.rec), len(ctl.log)))
        o.listener = lambda e, v: marks.append((len(f.rec), len(ctl.log)))
        o.learn(gens)
        if marks[-1] != (len(f.rec), len(ctl.log)):
            marks.append((len(f.rec), len(ctl.log)))
    sgn = -1. if minimize else 1.
    out = []
    for (a, b), (c, d) in zip(marks, marks[1:]):
        out.append(([array(p) for p, _ in f.rec[a:c]], array([sgn * v for _, v in f.rec[a:c]]), ctl.log[b:d]))
    head = ([array(p) for p, _ in f.rec[:marks[0][0]]], array([sgn * v for _, v in f.rec[:marks[0][0]]]), ctl.log[:marks[0][1]])
    return o, f, head, out


def orders(fits, limit=None):
    """every order of the indices from worst to best that agrees with the fitnesses; ranks as arrays"""
    groups = {}
    for i, v in enumerate(fits):
        groups.setdefault(float(v), []).append(i)
    for c in itertools.product(*[list(itertools.permutations(groups[v])) for v in sorted(groups)]):
        flat = [i for g in c for i in g]
        ranks = [0] * len(flat)
        for r, i in enumerate(flat):
            ranks[i] = r
        yield ranks


def same(a, b, tol=1e-7):
    a, b = sorted(float(x) for x in np.ravel(a)), sorted(float(x) for x in np.ravel(b))
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b))


def hansen(ranks):
    n = len(ranks)
    u = array([max(0., np.log(n / 2. + 1) - np.log(n - r)) for r in ranks])
    return u / u.sum()


def distinct(us):
    seen = set()
    for u in us:
        k = tuple(np.round(u, 12))
        if k not in seen:
            seen.add(k)
            yield u


def gs(entries):
    return [e[1] for e in entries if e[0] == 'g']


def us(entries):
    return [e[1] for e in entries if e[0] == 'u']


# ------------------------------------------------------------------------------------------- reference models
class Model(object):
    """state: any; fits(state, pts, log) -> bool; step(state, pts, fits, log) -> iterable of next states"""
    kw = {}

    def start(self, x0, head, kw):
        raise NotImplementedError

    def expects(self, state, pts, fits, log):
        raise NotImplementedError

    def step(self, state, pts, fits, log):
        raise NotImplementedError


class GD(object):
    def __init__(self, x, alpha, decay=1., momentum=0., rprop=False):
        self.x, self.alpha, self.decay, self.momentum, self.rprop = array(x, dtype=float), alpha, decay, momentum, rprop
        self.v, self.last, self.theta = zeros(len(x)), zeros(len(x)), ones(len(x)) * .1

    def next(self, g):
        n = GD(self.x, self.alpha, self.decay, self.momentum, self.rprop)
        if self.rprop:
            theta, last = [], []
            for i in range(len(g)):
                s = self.last[i] * g[i]
                t = self.theta[i] * (1.2 if s > 0 else .5 if s < 0 else 1.)
                theta.append(min(5., max(.01, t)))
                last.append(0. if s < 0 else g[i])
            n.x = self.x + np.sign(g) * self.theta
            n.theta, n.last = array(theta), array(last)
        else:
            n.v = self.momentum * self.v + self.alpha * array(g)
            n.x = self.x + n.v
            n.alpha = self.alpha * self.decay
        return n


class FDModel(Model):
    def __init__(self, batch, **kw):
        self.kw = dict(batchSize=batch, **kw)

    def start(self, x0, head):
        k = self.kw
        return [(GD(x0, k.get('learningRate', .1), k.get('learningRateDecay') or 1., k.get('momentum', 0.), k.get('rprop', False)), k.get('epsilon', 1.))]

    def deltas(self, s, pts):
        return [p - s[0].x for p in pts]

    def expects(self, s, pts, fits, log):
        n, d = self.kw['batchSize'], len(s[0].x)
        if len(pts) != n:
            return False
        u, eps, j = us(log), s[1], 0
        for dl in self.deltas(s, pts):
            if not same(dl, [(2 * v - 1) * eps for v in u[j:j + d]], 1e-6):
                return False
            eps *= self.kw.get('gamma', .999)
            j += d
        return j == len(u)

    def step(self, s, pts, fits, log):
        D = array(self.deltas(s, pts))
        g = np.linalg.lstsq(D, fits, rcond=None)[0]           # least squares, least norm
        eps = s[1] * self.kw.get('gamma', .999) ** len(pts)
        if not self.kw.get('rprop'):
            yield (s[0].next(g), eps)
            return
        for c in itertools.product(*[[v] if abs(v) > 1e-9 else [0., 1e-12, -1e-12] for v in g]):      # the sign of rounding noise is open
            yield (s[0].next(array(c)), eps)


class SPSAModel(Model):
    def __init__(self, **kw):
        self.kw = kw

    def start(self, x0, head):
        k = self.kw
        return [(GD(x0, k.get('learningRate', .1), k.get('learningRateDecay') or 1., k.get('momentum', 0.), k.get('rprop', False)), k.get('epsilon', 2.), None)]

    def expects(self, s, pts, fits, log):
        if len(pts) != 2 or not np.allclose(pts[0] + pts[1], 2 * s[0].x, atol=1e-9):
            return False
        ints = [e[1] for e in log if e[0] == 'i']
        dl = pts[0] - s[0].x
        return np.allclose(np.abs(dl), s[1], atol=1e-9) and len(ints) == len(dl) and sum(1 for v in dl if v > 0) in (sum(ints), len(ints) - sum(ints))

    def step(self, s, pts, fits, log):
        gd, eps, best = s
        first = best is None
        b = max(fits) if first else max(best, max(fits))
        f = 0. if first or fits[0] == fits[1] else (fits[0] - fits[1]) / (2 * b - fits[0] - fits[1])
        eps = eps * self.kw.get('gamma', .9995)
        yield (gd.next(f * eps ** 2 / (pts[0] - gd.x)), eps, b)


class PGPEModel(Model):
    def __init__(self, **kw):
        self.kw = kw

    def start(self, x0, head):
        k = self.kw
        gd = GD(x0, k.get('learningRate', .2), k.get('learningRateDecay') or 1., k.get('momentum', 0.), k.get('rprop', False))
        gs_ = GD(ones(len(x0)) * k.get('epsilon', 2.), k.get('sigmaLearningRate', .1), rprop=k.get('rprop', False))
        return [(gd, gs_, None, None)]

    def expects(self, s, pts, fits, log):
        if len(pts) != 2 or not np.allclose(pts[0] + pts[1], 2 * s[0].x, atol=1e-9):
            return False
        z = (pts[0] - s[0].x) / s[1].x
        g = gs(log)
        return np.allclose(z, g, atol=1e-7) or np.allclose(-z, g, atol=1e-7)

    def step(self, s, pts, fits, log):
        gd, sig, best, base = s
        dl = pts[0] - gd.x
        mean = (fits[0] + fits[1]) / 2.
        if best is None:
            best, base, f, f2 = max(fits), mean, 0., 0.
        else:
            best = max(best, max(fits))
            f = 0. if fits[0] == fits[1] else (fits[0] - fits[1]) / (2 * best - fits[0] - fits[1])
            f2 = 0. if best == base else (mean - base) / (best - base)
        base = .9 * base + .1 * mean
        S = sig.x
        ngd = gd.next(f * dl - gd.x * S * self.kw.get('wDecay', 0.))
        if f2 > 0:
            if self.kw.get('exploration') == 'global':
                sig = sig.next(f2 * (dot(dl, dl) - dot(S, S)) / (S * len(S)))
            else:
                sig = sig.next(f2 * (dl ** 2 - S ** 2) / S)
        yield (ngd, sig, best, base)


class SNESModel(Model):
    def __init__(self, batch=None, **kw):
        self.kw = dict(kw)
        if batch is not None:
            self.kw['batchSize'] = batch

    def n(self, d):
        return self.kw.get('batchSize') or 4 + int(floor(3 * np.log(d)))

    def start(self, x0, head):
        return [(array(x0, dtype=float), ones(len(x0)) * self.kw.get('initVariance', 1.))]

    def decode(self, s, pts):
        return [(p - s[0]) / s[1] for p in pts]

    def expects(self, s, pts, fits, log):
        return len(pts) == self.n(len(s[0])) and same(self.decode(s, pts), gs(log))

    def step(self, s, pts, fits, log):
        c, sg = s
        d = len(c)
        z = array(self.decode(s, pts))
        eta = self.kw.get('covLearningRate') or .6 * (3 + np.log(d)) / 3 / sqrt(d)
        for u in distinct(hansen(r) for r in orders(fits)):
            if self.kw.get('uniformBaseline', True):
                u = u - 1. / len(u)
            yield (c + self.kw.get('centerLearningRate', 1.) * sg * dot(u, z), sg * exp(.5 * eta * dot(u, z ** 2 - 1)))


class XNESModel(Model):
    def __init__(self, batch=None, **kw):
        self.kw = dict(kw)
        if batch is not None:
            self.kw['batchSize'] = batch

    def n(self, d):
        return self.kw.get('batchSize') or 4 + int(floor(3 * np.log(d)))

    def start(self, x0, head):
        d = len(x0)
        return [(array(x0, dtype=float), eye(d), None, None)]

    def decode(self, s, pts):
        return [np.linalg.solve(s[1], p - s[0]) for p in pts]

    def population(self, s, pts, fits, log):
        """the points that the update uses (or None if the evaluated points are not what the draws say)"""
        d = len(s[0])
        if not self.kw.get('importanceMixing') or s[2] is None:
            ok = len(pts) == self.n(d) and same(self.decode(s, pts), gs(log))
            return (pts, fits) if ok else None
        c, A, (oc, oA), (op, of) = s
        lp = lambda x, m, B: (lambda y: exp(-.5 * dot(y, y)) / abs(np.linalg.det(B)))(np.linalg.solve(B, x - m))
        u, g = us(log), gs(log)
        alpha, n = self.kw.get('forcedRefresh', .01), len(op)
        keep = []
        for i, p in enumerate(op):
            if not u:
                return None
            if u.pop(0) < (1 - alpha) * lp(p, c, A) / lp(p, oc, oA):
                keep.append(i)
            if n - len(keep) <= max(1, n * alpha):
                break
        new = []
        while len(keep) + len(new) < n:
            if not u or len(g) < d:
                return None
            r = u.pop(0)
            x = c + dot(A, array(g[:d]))
            g = g[d:]
            if r < max(alpha, 1 - lp(x, oc, oA) / lp(x, c, A)):
                new.append(x)
        if u or g or len(new) != len(pts) or not all(np.allclose(a, b, atol=1e-7) for a, b in zip(new, pts)):
            return None
        return ([op[i] for i in keep] + list(pts), array([of[i] for i in keep] + list(fits)))

    def expects(self, s, pts, fits, log):
        return self.population(s, pts, fits, log) is not None

    def step(self, s, pts, fits, log):
        pts, fits = self.population(s, pts, fits, log)
        c, A = s[:2]
        d = len(c)
        z = array(self.decode(s, pts))
        eta = self.kw.get('covLearningRate') or .6 * (3 + np.log(d)) / d / sqrt(d)
        etas = self.kw.get('scaleLearningRate') or eta
        I = eye(d)
        for u in distinct(hansen(r) for r in orders(fits)):
            if self.kw.get('uniformBaseline', True):
                u = u - 1. / len(u)
            G = sum(w * (outer(y, y) - I) for w, y in zip(u, z))
            tr = np.trace(G) / d
            yield (c + self.kw.get('centerLearningRate', 1.) * dot(A, dot(u, z)), dot(A, expm(.5 * (etas * tr * I + eta * (G - tr * I)))), (c, A), (pts, fits))


def spectrum(C, ys, g):
    """samples y of N(0, C) built as eigenvectors x deviations x draws g: their coordinates up to sign"""
    ev, B = np.linalg.eigh(C)
    if len(ev) == 1 or min(np.diff(ev)) > 1e-9 * max(ev):
        z = [dot(B.T, y) / sqrt(ev) for y in ys]
        return same(np.abs(z), np.abs(g), 1e-6)
    if np.allclose(C, C[0, 0] * eye(len(ev))):
        return same(array(ys) / sqrt(C[0, 0]), g, 1e-6)
    q = sorted(float(dot(y, np.linalg.solve(C, y))) for y in ys)
    return abs(sum(q) - sum(v * v for v in g)) < 1e-6 * (1 + sum(q))


class CMAModel(Model):
    def __init__(self, **kw):
        self.kw = kw

    def start(self, x0, head):
        d = len(x0)
        return [(array(x0, dtype=float), self.kw.get('initStepSize', .5), eye(d), zeros(d), zeros(d), 0)]

    def expects(self, s, pts, fits, log):
        d = len(s[0])
        return len(pts) == 4 + int(floor(3 * np.log(d))) and spectrum(s[2], [(p - s[0]) / s[1] for p in pts], gs(log))

    def step(self, s, pts, fits, log):
        m, sg, C, pc, ps, gen = s
        d, lam = len(m), len(pts)
        mu = lam // 2
        w = np.log(mu + 1.) - np.log(np.arange(1, mu + 1))
        w = w / w.sum()
        mueff = 1. / (w ** 2).sum()
        cc, cs = 4. / (d + 4), (mueff + 2) / (d + mueff + 3)
        mucov = mueff
        ccov = 2. / (mucov * (d + 1.4) ** 2) + (1 - 1 / mucov) * (2 * mueff - 1) / ((d + 2) ** 2 + 2 * mueff)
        damp = 1 + 2 * max(0, sqrt((mueff - 1) / (d + 1)) - 1) + cs
        chi = sqrt(d) * (1 - 1 / (4. * d) + 1 / (21. * d ** 2))
        ev, B = np.linalg.eigh(C)
        isq = dot(B / sqrt(ev), B.T)
        gen += 1
        done = set()
        for r in orders(fits):
            best = sorted(range(lam), key=lambda i: -r[i])[:mu]
            if tuple(best) in done:
                continue
            done.add(tuple(best))
            y = [(pts[i] - m) / sg for i in best]
            mean = sum(a * b for a, b in zip(w, y))
            nm = m + sg * mean
            nps = (1 - cs) * ps + sqrt(cs * (2 - cs) * mueff) * dot(isq, mean)
            h = 1. if np.linalg.norm(nps) / sqrt(1 - (1 - cs) ** (2. * gen)) / chi < 1.4 + 2. / (d + 1) else 0.
            npc = (1 - cc) * pc + h * sqrt(cc * (2 - cc) * mueff) * mean
            nC = (1 - ccov) * C + ccov / mucov * (outer(npc, npc) + (1 - h) * cc * (2 - cc) * C) \
                + ccov * (1 - 1 / mucov) * sum(a * outer(b, b) for a, b in zip(w, y))
            yield (nm, sg * exp(cs / damp * (np.linalg.norm(nps) / chi - 1)), nC, npc, nps, gen)


class FEMModel(Model):
    def __init__(self, window, **kw):
        self.kw = dict(windowSize=window, **kw)

    def start(self, x0, head):
        d = len(x0)
        u = us(head[2])[:d]
        lo = self.kw.get('rangemins', -ones(d))
        hi = self.kw.get('rangemaxs', ones(d))
        C = self.kw.get('initCovariances', ones(d) if self.kw.get('diagonalOnly') else eye(d))
        return [(array(u) * (hi - lo) + lo, array(C), (), None)]

    def expects(self, s, pts, fits, log):
        if len(pts) != 1:
            return False
        if self.kw.get('diagonalOnly'):
            return same((pts[0] - s[0]) / sqrt(s[1]), gs(log), 1e-6)
        return spectrum(s[1], [pts[0] - s[0]], gs(log))

    def step(self, s, pts, fits, log):
        mu, C, hist, best = s
        hist = (hist + (float(fits[0]),))[-self.kw['windowSize']:]
        n, x = len(hist), pts[0]
        if n < self.kw['windowSize']:
            yield (mu, C, hist, best)
            return
        cut = n * .5
        got = set()
        for r in orders(hist):
            share = max(0., r[-1] - cut) / (n - 1 - cut)
            if share in got:
                continue
            got.add(share)
            q = share * self.kw.get('forgetFactor', .1)
            k = self.kw.get('muMultiplier', 1.) * q
            nmu = (1 - k) * mu + k * x
            df = (mu if self.kw.get('mutative') else nmu) - x
            nC = (1 - q) * C + (q * df ** 2 if self.kw.get('diagonalOnly') else 1.2 * q * outer(df, df))
            yield (nmu, nC, hist, best)


def triu(M):
    return np.concatenate([M[i, i:] for i in range(len(M))])


def untri(v, d):
    M, j = zeros((d, d)), 0
    for i in range(d):
        M[i, i:] = v[j:j + d - i]
        j += d - i
    return M


def scores(A, z):
    """derivative of the log density of N(x, A'A) at x + z, by x and the upper triangle of A"""
    Si = np.linalg.inv(dot(A.T, A))
    G = .5 * dot(Si, dot(outer(z, z), Si)) - .5 * Si
    return np.concatenate([dot(Si, z), triu(2 * dot(A, G))])


def fisher(A):
    d = len(A)
    Si = np.linalg.inv(dot(A.T, A))
    m = d * (d + 1) // 2
    F = zeros((d + m, d + m))
    F[:d, :d] = Si
    ds = []
    for k in range(m):
        e = zeros(m)
        e[k] = 1
        E = untri(e, d)
        ds.append(dot(Si, dot(E.T, A) + dot(A.T, E)))
    for i in range(m):
        for j in range(m):
            F[d + i, d + j] = .5 * np.trace(dot(ds[i], ds[j]))
    return F


class NESModel(Model):
    """vanilla gradient, exact and original natural evolution strategies"""

    def __init__(self, kind, batch, **kw):
        self.kind, self.kw = kind, dict(batchSize=batch, **kw)
        self.kw.setdefault('importanceMixing', False)

    def start(self, x0, head):
        d = len(x0)
        C = self.kw.get('initCovariances', eye(d))
        lo, hi = self.kw.get('rangemins', -ones(d)), self.kw.get('rangemaxs', ones(d))
        return [(array(us(head[2])[:d]) * (hi - lo) + lo, np.linalg.cholesky(C).T, zeros(d + d * (d + 1) // 2), (), ())]

    def decode(self, s, pts):
        return [np.linalg.solve(s[1].T, p - s[0]) for p in pts]

    def expects(self, s, pts, fits, log):
        return len(pts) == (1 if self.kw.get('online') else self.kw['batchSize']) and same(self.decode(s, pts), gs(log))

    def shaped(self, fits):
        n = len(fits)
        cut = n * .5
        for r in orders(fits):
            yield array([max(0., x - cut) / (n - 1 - cut) for x in r])

    def step(self, s, pts, fits, log):
        x, A, mom, hist, sq = s
        d, n = len(x), self.kw['batchSize']
        lr = self.kw.get('learningRate', .01 if self.kind == 'vanilla' else 1.)
        lrs = self.kw.get('learningRateSigma', lr)
        if self.kw.get('online'):
            count = (hist[0] if hist else 0) + 1
            past = ((hist[1] if hist else ()) + (float(fits[0]),))[-n:]
            hist = (count, past)
            if count <= n:
                yield (x, A, mom, hist, sq)
                return
            phi = scores(A, pts[0] - x)
            sq = (list(sq) + [phi ** 2])[-n:]
            for f in distinct(self.shaped(past)):
                b = sum(a * q for a, q in zip(f[n - len(sq):], sq)) / sum(sq)
                up = (f[-1] - b) * phi
                yield self.move(x, A, mom, up, lr, lrs, hist, sq)
            return
        P = array([scores(A, p - x) for p in pts])
        for f in distinct(self.shaped(fits)):
            if self.kind == 'vanilla':
                b = dot(f, P ** 2) / (P ** 2).sum(0)
                up = (P * (f[:, None] - b)).sum(0)
            elif self.kind == 'exact':
                V = np.linalg.solve(fisher(A), P.T)
                up = self.exact(V, f, d) / n
            else:
                up = np.linalg.lstsq(np.hstack([P, ones((n, 1))]), f, rcond=1e-12)[0][:-1]
            yield self.move(x, A, mom, up, lr, lrs, hist, sq)

    def exact(self, V, f, d):
        base = self.kw.get('baselineType', 3)
        if base == 0:
            return dot(V, f)
        if base == 1:
            v, u = V.sum(1), dot(V, f)
            return u - dot(v, u) / dot(v, v) * v
        cuts = [d]
        for k in range(d):
            cuts.append(cuts[-1] + d - k)
        blocks = [range(0, d)] + [range(a, b) for a, b in zip(cuts, cuts[1:])]
        if base == 2:
            blocks = [[i] for i in range(len(V))]
        up = zeros(len(V))
        for b in blocks:
            b = list(b)
            w = (V[b] ** 2).sum(0)
            up[b] = dot(V[b], f - dot(w, f) / w.sum())
        return up

    def move(self, x, A, mom, up, lr, lrs, hist, sq):
        d = len(x)
        if self.kw.get('momentum') is not None:
            up = mom = self.kw['momentum'] * mom + up
        return (x + lr * up[:d], A + lrs * untri(up[d:], d), mom, hist, sq)


class Rank1Model(Model):
    """exact natural gradient for N(c, e^(2a) (I + uu')), by the Fisher information of (a, u)"""

    def __init__(self, **kw):
        self.kw = kw

    def start(self, x0, head):
        g, d = gs(head[2]), len(x0)
        return [(array(x0, dtype=float), 0., u / sqrt(dot(u, u))) for u in (array(g[i:i + d]) for i in range(0, len(g) - d + 1, d))]

    def expects(self, s, pts, fits, log):
        c, a, u = s
        d = len(c)
        g = gs(log)
        rows = [array(g[i:i + d + 1]) for i in range(0, len(g), d + 1)]
        n = int(max(5, max(4 * np.log2(d), .2 * d)))
        return len(pts) == n and len(g) == n * (d + 1) and all(np.allclose(p, c + exp(a) * (r[:-1] + u * r[-1]), atol=1e-7) for p, r in zip(pts, rows))

    def step(self, s, pts, fits, log):
        c, a, u = s
        d = len(c)
        C = exp(2 * a) * (eye(d) + outer(u, u))
        Ci = np.linalg.inv(C)
        ds = [2 * C] + [exp(2 * a) * (outer(e, u) + outer(u, e)) for e in eye(d)]
        F = array([[.5 * np.trace(dot(dot(Ci, p), dot(Ci, q))) for q in ds] for p in ds])
        G = []
        for p in pts:
            z = p - c
            M = .5 * dot(Ci, dot(outer(z, z), Ci)) - .5 * Ci
            G.append([np.trace(dot(M, p)) for p in ds])
        G = array(G)
        for w in distinct(hansen(r) for r in orders(fits)):
            nat = np.linalg.solve(F, dot(w, G))
            da, du = nat[0], nat[1:]
            r = sqrt(dot(u, u))
            v = u / r
            dc = dot(du, v) / r
            dv = du / r - dc * v
            eps = min(.1, 2 * sqrt(r ** 2 / dot(du, du)))
            if dc > 0:
                nu = u + eps * du
            else:
                nv = v + eps * dv
                nu = r * exp(eps * dc) * nv / sqrt(dot(nv, nv))
            yield (c + dot(w, array(pts) - c), a + .1 * da, nu)


def flat(s):
    out = []

    def go(x):
        if isinstance(x, GD):
            for v in (x.x, x.v, x.last, x.theta):
                go(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v)
        elif isinstance(x, np.ndarray):
            out.extend(np.round(x.ravel(), 9).tolist())
        elif x is not None:
            out.append(round(float(x), 9))
    go(s)
    return tuple(out)


def model_job(ctx, name, cls, model, dim, gens, menu, free, scripts, minimize, ints, sgrid=()):
    """all answers for the first `free` points, later ones cycle with every phase in `sgrid`"""
    base = '%s:dim=%d:%s:min=%s' % (name, dim, ','.join('%s=%s' % (k, v if np.isscalar(v) else np.ravel(v).tolist()) for k, v in sorted(model.kw.items())), minimize)

    def body(ch):
        sc = scripts[ch.pick(len(scripts))]
        ph = sgrid[ch.pick(len(sgrid))] if sgrid else 0

        def answer(i):
            if i < free:
                return menu[ch.pick(len(menu))]
            return menu[(i * i + ph * i + ph) % len(menu)]
        x0 = [.75, -1.25, 2.][:dim]
        ok, r = ctx.guard('crash:' + base, drive, cls, answer, x0, gens, sc, minimize, ch if ints else None, **model.kw)
        if not ok:
            raise StopJob()
        o, f, head, run = r
        key = base + ':' + ''.join(map(str, ch.taken))
        hyp = model.start(x0, head)
        for t, (pts, fits, log) in enumerate(run):
            fit = [h for h in hyp if model.expects(h, pts, fits, log)]
            if not ctx.check(bool(fit), 'points:%s:%d' % (key, t), 'the points tried in this step are those of the method with the drawn perturbations',
                             got=[list(p) for p in pts], draws=log, models=[repr(h)[:300] for h in hyp[:2]], run=f.rec):
                raise StopJob()
            nxt, seen = [], set()
            for h in fit:
                for m in model.step(h, pts, fits, log):
                    k = flat(m)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(m)
            hyp = nxt
            ctx.trans()
        ctx.check(len(run) == gens or getattr(o, 'maxLearningSteps', None) is not None, 'steps:' + key, 'runs the steps asked for', got=len(run), want=gens)
        ctx.trace()
        ctx.state((base, tuple(f.rec)))
        ctx.outcome(tuple(len(r[0]) for r in run))
        ctx.sample(dict(config=base, evaluations=f.rec[:12]))

    explore(body)


# ------------------------------------------------------------------------------------------- the gradient step alone
def gd_job(ctx, dim, depth, menu, kw):
    base = 'gradient step:dim=%d:%s' % (dim, kw)

    def body(ch):
        g = GradientDescent()
        for k, v in kw.items():
            setattr(g, k, v)
        x0 = array([.5, -2., 1.][:dim])
        keep = x0.copy()
        g.init(x0)
        m = GD(x0, kw.get('alpha', .1), kw.get('alphadecay', 1.), kw.get('momentum', 0.), kw.get('rprop', False))
        seq = []
        for t in range(depth):
            gr = array([menu[ch.pick(len(menu))] for _ in range(dim)])
            seq.append(gr.tolist())
            mine = gr.copy()
            ok, x = ctx.guard('crash:' + base, g, gr)
            if not ok:
                raise StopJob()
            m = m.next(mine)
            ctx.check(np.allclose(x, m.x, atol=1e-12), 'step:%s:%s' % (base, seq), 'moves along the gradient by its rule', got=list(x), want=list(m.x))
            ctx.check(list(gr) == list(mine) and list(x0) == list(keep), 'alias:%s:%s' % (base, seq), 'gradient and starting values stay as they are', got=[list(gr), list(x0)])
            x[:] = 77.
            ctx.trans()
        ctx.trace()
        ctx.state((base, tuple(map(tuple, seq))))
        ctx.sample(dict(config=base, gradients=seq))

    explore(body)


# ------------------------------------------------------------------------------------------- importance mixing
def mixing_job(ctx, n, alpha, ratios, coins, budget):
    base = 'importance mixing:%d:%s' % (n, alpha)

    def body(ch):
        rat = {}                               # point -> new density / old density

        def ratio(p):
            if p not in rat:
                rat[p] = ratios[ch.pick(len(ratios))] if len(coin) < budget else ratios[-1]      # then accepted
            return rat[p]
        drawn = []

        def newdistr():
            drawn.append(1000 + len(drawn))
            return drawn[-1]
        coin = []

        def unit():
            left = budget - len(coin)
            coin.append(coins[ch.pick(len(coins))] if left > 0 else 0.)      # at last accept
            return coin[-1]
        with rng.control(ch, unit=unit):
            ok, r = ctx.guard('crash:' + base, importanceMixing, list(range(n)), lambda p: 2., lambda p: 2. * ratio(p), newdistr, alpha)
        if not ok:
            raise StopJob()
        key = base + ':' + ''.join(map(str, ch.taken))
        cs = list(coin)
        keep, new, k = [], [], 0
        for i in range(n):
            if cs.pop(0) < (1 - alpha) * ratio(i):
                keep.append(i)
            if n - len(keep) <= max(1, n * alpha):
                break
        while len(keep) + len(new) < n:
            p = 1000 + k
            k += 1
            if not cs:
                break
            if cs.pop(0) < max(alpha, 1 - 1. / ratio(p)):
                new.append(p)
        ctx.check(list(r[0]) == keep and list(r[1]) == new and not cs and len(drawn) == k, 'mix:' + key, 'old points are kept and new ones taken with the densities\' odds, to the full batch',
                  got=r, want=[keep, new], coins=coin, ratios=sorted(rat.items()))
        ctx.trans(len(coin))
        ctx.trace()
        ctx.state((base, tuple(coin), tuple(sorted(rat.items()))))
        ctx.sample(dict(config=base, coins=coin, ratios=sorted(rat.items()), kept=keep, new=new))

    explore(body)


# ------------------------------------------------------------------------------------------- jobs
def jobs(tier, seed):
    deep = tier == 'thorough'
    out = []
    three = (0., 1., 2.5)

    def add(name, cls, model, dim, gens, free, menu=three, scripts=(0,), ints=False, sgrid=(), both=True):
        for mn in ((False, True) if both else (False,)):
            if not deep and both and (dim + gens + len(model.kw)) % 2 == int(mn) and dim > 1:
                continue
            nm = '%s %d %s %s' % (name, dim, ' '.join('%s=%s' % (k, v if np.isscalar(v) else '..') for k, v in sorted(model.kw.items())), 'min' if mn else 'max')
            out.append((nm, model_job, (name, cls, model, dim, gens, menu, free, scripts, mn, ints, sgrid)))

    sc = (0, 1, 2) if deep else (0, 1)
    # finite differences
    for b, dim in ((3, 2), (1, 1), (2, 3), (4, 2)):
        add('FD', po.FiniteDifferences, FDModel(b), dim, 3, min(2 * b, 5 if not deep else 8), scripts=sc)
    add('FD', po.FiniteDifferences, FDModel(3, epsilon=.5, gamma=.7, learningRate=.4, learningRateDecay=.5, momentum=.3), 2, 4, 6 if deep else 5, scripts=sc)
    add('FD', po.FiniteDifferences, FDModel(2, rprop=True), 2, 4, 5 if not deep else 8, scripts=sc)
    # SPSA: every sign pattern
    for dim in (1, 2, 3):
        add('SPSA', po.SimpleSPSA, SPSAModel(), dim, 3 if dim < 3 else 2, {1: 4, 2: 3, 3: 2}[dim] + 2 * deep, ints=True, scripts=(0,), menu=three if dim < 3 else (0., 1.))
    add('SPSA', po.SimpleSPSA, SPSAModel(epsilon=.5, gamma=.6, learningRate=.4, learningRateDecay=.5, momentum=.3), 1, 4, 4 if not deep else 8, ints=True)
    add('SPSA', po.SimpleSPSA, SPSAModel(rprop=True, gamma=.8), 2, 3, 2 + 2 * deep, ints=True, menu=(0., 1.))
    # PGPE
    for kw in (dict(), dict(exploration='global'), dict(wDecay=.1, momentum=.3, learningRate=.4, sigmaLearningRate=.3, epsilon=.7), dict(rprop=True),
               dict(exploration='global', learningRateDecay=.5, epsilon=.7)):
        for dim in (1, 2, 3):
            add('PGPE', po.PGPE, PGPEModel(**kw), dim, 4, 8 if deep else 5, scripts=sc[:1 + deep])
    # distribution based
    for kw in (dict(), dict(uniformBaseline=False, centerLearningRate=.5), dict(covLearningRate=.9, initVariance=.3)):
        for b, dim in ((3, 2), (4, 1), (3, 3)):
            add('SNES', po.SNES, SNESModel(b, **kw), dim, 3, (6 if deep else 4) if dim > 2 else 8 if deep else 5, scripts=sc[:2] if deep else (0,))
    add('SNES', po.SNES, SNESModel(), 2, 2, 6 if deep else 4, scripts=(0,))
    for kw in (dict(), dict(uniformBaseline=False, centerLearningRate=.5), dict(covLearningRate=.9, scaleLearningRate=.2)):
        for b, dim in ((3, 2), (4, 1), (3, 3)):
            add('XNES', po.XNES, XNESModel(b, **kw), dim, 4, (6 if deep else 4) if dim > 2 else 8 if deep else 5, scripts=sc[:2] if deep else (0,))
    add('XNES', po.XNES, XNESModel(), 2, 2, 6 if deep else 4, scripts=(0,))
    for b, dim, fr in ((3, 2, .01), (4, 1, .3), (3, 3, .01), (4, 2, .1)):
        add('XNES', po.XNES, XNESModel(b, importanceMixing=True, forcedRefresh=fr, covLearningRate=.1, centerLearningRate=.3), dim, 4, (6 if deep else 3) if dim > 2 else 8 if deep else 4, scripts=(0, 1))
    for dim, free in ((1, 4 if not deep else 8), (2, 6 if deep else 4), (3, 7 if deep else 5)):
        menu = three if dim == 1 else (0., 1.) if dim == 3 else three
        add('CMAES', po.CMAES, CMAModel(), dim, 3, free, menu=menu, scripts=sc[:2] if dim < 3 else (0,), sgrid=(0, 1))
    add('CMAES', po.CMAES, CMAModel(initStepSize=2.), 2, 4 if deep else 3, 4 if deep else 3, scripts=(0, 1, 2), sgrid=(0, 1, 2))
    for kw in (dict(), dict(diagonalOnly=True), dict(forgetFactor=.4, muMultiplier=.5), dict(mutative=True, forgetFactor=.5), dict(diagonalOnly=True, forgetFactor=.5)):
        for w, dim in ((4, 2), (6, 1), (4, 3)):
            add('FEM', po.FEM, FEMModel(w, **kw), dim, w + 4, (6 if dim > 2 else 8) if deep else 4, scripts=(0,), sgrid=(0, 1))
    add('FEM', po.FEM, FEMModel(4, diagonalOnly=True, initCovariances=array([.25, 4.])), 2, 7, 5, sgrid=(0, 1))
    add('FEM', po.FEM, FEMModel(4, initCovariances=array([[1., .4], [.4, 2.]]), rangemins=array([2., 3.]), rangemaxs=array([4., 3.5])), 2, 7, 5, sgrid=(0, 1))
    for kind, cls in (('vanilla', po.VanillaGradientEvolutionStrategies), ('exact', po.ExactNES), ('original', po.OriginalNES)):
        kws = [dict(learningRate=.1), dict(learningRate=.1, initCovariances=array([[1., .4], [.4, 2.]])), dict(learningRate=.2, learningRateSigma=.05)]
        if kind == 'vanilla':
            kws += [dict(learningRate=.1, momentum=.5), dict(learningRate=.1, online=True), dict(learningRate=.1, online=True, momentum=.4)]
        if kind == 'exact':
            kws += [dict(learningRate=.1, baselineType=k) for k in (0, 1, 2)]
        for kw in kws:
            for dim in (1, 2, 3):
                if dim != 2 and 'initCovariances' in kw:
                    continue
                b = 4
                add(kind, cls, NESModel(kind, b, **kw), dim, 3 if not kw.get('online') else 9, (8 if deep else 5) if dim < 3 else 6 if deep else 3, scripts=(0,), both=deep)
    Rank1 = optlib.Rank1()
    for dim in (2, 3):
        add('Rank1', Rank1, Rank1Model(), dim, 3, 3 if not deep else 6, sgrid=(0, 1))
    # gradient step
    for kw in (dict(), dict(alpha=.5, alphadecay=.5), dict(momentum=.5), dict(alpha=.3, alphadecay=.9, momentum=.9), dict(rprop=True)):
        out.append(('gradient step 1 %s' % kw, gd_job, (1, 6 if not deep else 8, (0., 1., -2.), kw)))
        out.append(('gradient step 2 %s' % kw, gd_job, (2, 3 if not deep else 4, (0., 1., -2.), kw)))
    # importance mixing
    for n, alpha in ((2, .25), (3, .25), (3, 0.), (4, .5)):
        out.append(('mixing %d %s' % (n, alpha), mixing_job, (n, alpha, (.5, 1., 4.) if n < 4 or deep else (.5, 4.), (.1, .45, .9), 4 if not deep else 5)))
    return out
