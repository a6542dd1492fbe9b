"""Every history of adding samples and data sets, training on a data set, resetting, changing hyper-parameters, asking points and
drawing, on the real Gaussian process, against the posterior computed by hand (Gaussian elimination) from the samples it holds; the
sampling grid for every interval and dimension."""

import math
from numpy import array
from mc.choice import explore
from pybrain.auxiliary import gaussprocess
from pybrain.auxiliary.gaussprocess import GaussianProcess
from pybrain.datasets import SupervisedDataSet

ASSUMPTIONS = ['each training target carries the noise 0.001 the class documents in code, and the kernel is the squared exponential of the hyper-parameters',
               'automatic noise is judged in one dimension only (with more it is not usable)', 'the covariance before the first sample is not judged']
NOISE = 0.001


def solve(A, B):
    """A X = B by elimination with pivoting"""
    n = len(A)
    M = [list(map(float, A[i])) + list(map(float, B[i])) for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c and M[r][c] != 0.:
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [[x / M[i][i] for x in M[i][n:]] for i in range(n)]


class Model(object):
    def __init__(self):
        self.x, self.y = [], []
        self.hyper, self.mean, self.auto = (0.5, 2.0, 0.1), 0., False

    def k(self, a, b):
        l, s, _ = self.hyper
        return s * s * math.exp(-sum((p - q) ** 2 for p, q in zip(a, b)) / (2. * l * l))

    def posterior(self, pts):
        if not self.x:
            return [self.mean] * len(pts), None
        n = len(self.x)
        K = [[self.k(a, b) + (NOISE if i == j else 0.) for j, b in enumerate(self.x)] for i, a in enumerate(self.x)]
        if self.auto and n > 1:
            s = sorted(a[0] for a in self.x)
            avg = (s[-1] - s[0]) / (n - 1)
            for i in range(n):
                for j in range(n):
                    d = abs(self.x[i][0] - self.x[j][0])
                    if d <= avg:
                        K[i][i] += abs(self.y[i] - self.y[j]) / math.exp(d)
        S = [[self.k(a, b) for b in pts] for a in self.x]
        R = solve(K, [[self.y[i] - self.mean] + S[i] for i in range(n)])
        mean = [self.mean + sum(S[i][j] * R[i][0] for i in range(n)) for j in range(len(pts))]
        cov = [[self.k(pts[i], pts[j]) - sum(S[m][i] * R[m][1 + j] for m in range(n)) for j in range(len(pts))] for i in range(len(pts))]
        return mean, cov


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1., abs(b))


def same(got, want):
    g = array(got, dtype=float)
    if want and isinstance(want[0], list):
        return g.shape == (len(want), len(want)) and all(close(g[i, j], want[i][j]) for i in range(len(want)) for j in range(len(want)))
    return g.shape == (len(want),) and all(close(x, y) for x, y in zip(g, want))


class Draws(object):
    def __init__(self):
        self.asked = []

    def multivariate_normal(self, mean, cov, *a):
        self.asked.append((array(mean).copy(), array(cov).copy()))
        return array([100. * (i + 1) for i in range(len(mean))])


def histories(ctx, dim, depth, auto):
    if dim == 1:
        P = [([0.], 1.), ([1.], -2.), ([-1.25], .5)]
        A = [[[.5]], [[0.], [1.5], [-1.]]]
    else:
        P = [([0., 0.], 1.), ([1., .5], -2.), ([-1., 1.25], .5)]
        A = [[[.5, .25]], [[0., 0.], [1., -1.]]]
    D = [[P[0], ([.5] * dim, 2.)], [P[1]]]
    ops = ([('sample', i) for i in range(len(P) if depth < 4 else 2)] + [('add', 0), ('add', 1), ('train', 0), ('train', 1), ('reset',)] + [('ask', i) for i in range(2)] + [('draw',)] +
           [('hyper', (1., 1.5, .1)), ('mean', 3.)] + ([('auto',)] if auto else []))

    def run(ch):
        start = (0., 1., .5) if dim == 1 else (0, 1, .5)
        gp = GaussianProcess(dim, *start)
        m = Model()
        sets = []
        for rows in D:
            ds = SupervisedDataSet(dim, 1)
            for x, y in rows:
                ds.addSample(x, [y])
            sets.append(ds)
        pts = [[0.], [.5]] if dim == 1 else [[0., 0.], [0., .5], [.5, 0.], [.5, .5]]
        log = []
        asked = False
        for _ in range(depth):
            op = ch.of(ops)
            log.append(op)
            info = dict(dim=dim, log=list(log))
            if op[0] == 'sample':
                x, y = P[op[1]]
                ok, _ = ctx.guard('train', gp.addSample, x, [y])
                m.x.append(x)
                m.y.append(y)
            elif op[0] in ('add', 'train'):
                ok, _ = ctx.guard('train', gp.addDataset if op[0] == 'add' else gp.trainOnDataset, sets[op[1]])
                if op[0] == 'train':
                    m.x, m.y = [], []
                m.x = m.x + [x for x, _ in D[op[1]]]
                m.y = m.y + [y for _, y in D[op[1]]]
            elif op[0] == 'reset':
                ok, _ = ctx.guard('reset', gp.reset)
                m.x, m.y = [], []
            elif op[0] == 'ask':
                pts = A[op[1]]
                given = array(pts)
                ok, got = ctx.guard('ask', gp.testOnArray, given)
                if ok:
                    mean, cov = m.posterior(pts)
                    ctx.check(same(got, mean), 'posterior', 'the predicted mean is not the posterior mean of the samples held', got=got, want=mean, **info)
                    if cov is not None:
                        ctx.check(same(gp.pred_cov, cov), 'posterior', 'the predicted covariance is not the posterior covariance of the samples held', got=gp.pred_cov, want=cov, **info)
                    ctx.check(given.tolist() == pts, 'arguments', 'the points asked are changed', **info)
            elif op[0] == 'draw':
                if not m.x:
                    ok = True       # nothing to judge before the first sample
                else:
                    r, keep = Draws(), gaussprocess.random
                    gaussprocess.random = r
                    try:
                        ok, got = ctx.guard('draw', gp.draw)
                    finally:
                        gaussprocess.random = keep
                    if ok:
                        mean, cov = m.posterior(pts)
                        ctx.check(len(r.asked) == 1, 'draw', 'not exactly one normal deviate is drawn', n=len(r.asked), **info)
                        shift = r.asked[0][0]
                        ctx.check(same(r.asked[0][1], cov), 'draw', 'the deviate does not have the posterior covariance', got=r.asked[0][1], want=cov, **info)
                        if list(shift) == [0.] * len(pts):
                            ctx.check(same(got, [a + 100. * (i + 1) for i, a in enumerate(mean)]), 'draw', 'the draw is not the posterior mean plus the deviate', got=got, want=mean, **info)
                        else:
                            ctx.check(same(shift, mean) and same(got, [100. * (i + 1) for i in range(len(pts))]), 'draw', 'the draw is not around the posterior mean', got=got, want=mean, **info)
            elif op[0] == 'auto':
                gp.autonoise = m.auto = not m.auto
                ok = True
            else:
                setattr(gp, op[0], op[1])
                setattr(m, op[0], op[1])
                ok = True
            if not ok:
                return
            ctx.trans()
            ctx.state((dim, tuple(map(tuple, m.x)), tuple(m.y), m.hyper, m.mean, m.auto, len(pts)))
        for ds, rows in zip(sets, D):
            ctx.check(ds['input'].tolist() == [x for x, _ in rows] and ds['target'].tolist() == [[y] for _, y in rows], 'arguments', 'a data set given is changed', log=log)
        ok, got = ctx.guard('ask', gp.testOnArray, array(A[1]))
        if ok:
            mean, cov = m.posterior(A[1])
            ctx.check(same(got, mean) and (cov is None or same(gp.pred_cov, cov)), 'posterior', 'the prediction is not the posterior of the samples held', got=got, want=mean, log=log)
        ctx.outcome((len(m.x), m.hyper, m.mean))
        ctx.trace()
    explore(run)


def ticks(a, b, s):
    return [a + i * s for i in range(max(0, int(math.ceil((b - a) / s - 1e-9))))]


def grids(ctx):
    axes = [(a, b, s) for a in (-1, 0., .5) for b in (1, 1.5, 2.) for s in (.25, .5, 1)]
    for a, b, s in axes:
        for dim in (1, 2, 3):
            if dim == 3 and s == .25:
                continue
            ok, gp = ctx.guard('grid', GaussianProcess, dim, a, b, s)
            ctx.trans()
            if not ok:
                continue
            want = [[]]
            for _ in range(dim):
                want = [w + [t] for w in want for t in ticks(a, b, s)]
            grid(ctx, gp, want, dict(start=a, stop=b, step=s, dim=dim))
    for k, x in enumerate(axes):
        y = axes[(k * 5 + 7) % len(axes)]
        ok, gp = ctx.guard('grid', GaussianProcess, 2, *zip(x, y))
        ctx.trans()
        if ok:
            grid(ctx, gp, [[p, q] for p in ticks(*x) for q in ticks(*y)], dict(x=x, y=y))
    ctx.outcome('done')


def grid(ctx, gp, want, info):
    got = array(gp.testx, dtype=float)
    ctx.check(got.shape == (len(want), gp.indim) and sorted(map(tuple, got.round(9).tolist())) == sorted(map(tuple, array(want).round(9).tolist())), 'grid', 'the grid does not hold the points of the interval',
              got=got, want=want, **info)
    ctx.check(len(gp.pred_mean) == len(want) and array(gp.pred_cov).shape == (len(want), len(want)), 'grid', 'prediction and grid do not fit', **info)
    ctx.state(tuple(sorted(info.items(), key=str)) and str(info))
    ctx.trace()


def jobs(tier, seed):
    deep = tier != 'quick'
    js = [('grid', grids, ())]
    js += [('histories-1', histories, (1, 4 if not deep else 5, False)), ('histories-1-auto', histories, (1, 3 if not deep else 4, True)), ('histories-2', histories, (2, 3 if not deep else 4, False))]
    return js
