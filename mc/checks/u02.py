"""Every bound and step combination through GridSearch2D, with every assignment of performances on small grids; every sequence of
winning points through the levels of GridSearchDOE; both cost/gamma searches with a recording trainer under every permutation
of the cross-validation data."""

import itertools
from numpy import array, linspace
from mc import rng
from mc.choice import explore
from pybrain.tools.gridsearch import GridSearch2D, GridSearchDOE, GridSearchCostGamma, GridSearchDOECostGamma
from pybrain.datasets import SupervisedDataSet

ASSUMPTIONS = ['points are compared up to 1e-9 of the range', 'which of equally performing settings is reported is open',
               'GridSearchDOE re-evaluates points that several levels share (only the cost/gamma variant caches them)',
               'the trainer is a recording stub: no support vector machine library is present']
BOUNDS = [((0., 0.), (1., 1.)), ((-5, -15), (15, 3)), ((-2., 1.), (-1., 9.))]


def near(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * max(1., abs(x), abs(y)) for x, y in zip(a, b)) and len(a) == len(b)


def key(p):
    return tuple(round(float(x), 7) for x in p)


class Grid(GridSearch2D):
    def start(self, perf):
        self.perf, self.calls, self.steps = perf, [], []
        return self

    def _validate(self, params):
        self.calls.append(key(params))
        return self.perf(key(params))

    def _onStep(self):
        self.steps.append(len(self.calls))


def grid_one(ctx, lo, hi, steps, perf, label):
    ctx.trans()
    ok, g = ctx.guard('grid-crash', Grid, lo, hi, steps)
    if not ok:
        return
    g.start(perf)
    ok, best = ctx.guard('grid-crash', g.search)
    if not ok:
        return
    nx, ny = steps if isinstance(steps, tuple) else (steps, steps)
    want = sorted(key((x, y)) for x in linspace(lo[0], hi[0], nx) for y in linspace(lo[1], hi[1], ny))
    if not ctx.check(sorted(g.calls) == want, 'grid-once', 'not every grid point exactly once', lo=lo, hi=hi, steps=steps, got=g.calls, want=want):
        return
    perfs = g.getPerformances()
    ctx.check(sorted((key(k), v) for k, v in perfs.items()) == sorted((p, perf(p)) for p in want), 'grid-record', 'wrong recorded performances', steps=steps)
    ctx.check(key(best) in want and perf(key(best)) == max(perf(p) for p in want), 'grid-best', 'the reported setting is not the best one', lo=lo, hi=hi, steps=steps,
              got=list(best), perf=perf(key(best)), best=max(perf(p) for p in want), label=label)
    for n in g.steps:
        seen = g.calls[:n]
        xs, ys = set(x for x, y in seen), set(y for x, y in seen)
        ctx.check(len(set(seen)) == len(xs) * len(ys), 'grid-partial', 'a step is announced before a complete grid was evaluated', steps=steps, seen=seen)
    ctx.check(g.steps and g.steps[-1] == len(want), 'grid-last', 'the last step is not announced', steps=steps)
    ctx.check(g.getPerformances() is not g._performances, 'grid-copy', 'the internal record is handed out', steps=steps)


def grids(ctx, top):
    for lo, hi in BOUNDS:
        for nx in range(1, top + 1):
            for ny in range(1, top + 1):
                for steps in [(nx, ny)] + ([nx] if nx == ny else []):
                    ctx.state((lo, hi, str(steps)))
                    for fam in range(4):
                        def perf(p):
                            return [p[0] - p[1], -(p[0] - lo[0]) ** 2 - (p[1] - hi[1]) ** 2, 0., -abs(p[0] * 3 + p[1])][fam]
                        grid_one(ctx, lo, hi, steps, perf, fam)
    ctx.outcome('grid')


def assigned(ctx, steps, alph, which):
    lo, hi = BOUNDS[which]
    pts = [key((x, y)) for x in linspace(lo[0], hi[0], steps[0]) for y in linspace(lo[1], hi[1], steps[1])]
    for vals in itertools.product(alph, repeat=len(pts)):
        ctx.state(vals)
        grid_one(ctx, lo, hi, steps, dict(zip(pts, vals)).__getitem__, vals)
    ctx.outcome('assigned')


def permutations(ctx, top):
    """the order in which a dimension is visited"""
    g = Grid((0, 0), (1, 1), 2)
    for n in range(0, top + 1):
        ctx.state(n)
        ctx.trans()
        seq = list(range(n))
        ok, got = ctx.guard('permute-crash', g._permuteSequence, list(seq))
        if ok:
            ctx.check(sorted(got) == seq, 'permute', 'the visiting order is not a permutation', n=n, got=got)


# ------------------------------------------------------------------------------- DOE

class DOE(GridSearchDOE):
    def start(self, answer):
        self.answer, self.calls = answer, []
        return self

    def _validate(self, params):
        self.calls.append(tuple(float(x) for x in params))
        return self.answer(len(self.calls) - 1, key(params))


def doe_levels(ctx, lo, hi, levels, calls):
    """every level: 13 distinct points of the pattern, inside the bounds, of halving extent"""
    rng_ = [b - a for a, b in zip(lo, hi)]
    grids_ = []
    for l in range(levels):
        pts = calls[13 * l:13 * l + 13]
        if not ctx.check(len(pts) == 13 and len(set(map(key, pts))) == 13, 'doe-once', 'a level does not evaluate 13 distinct points once each', level=l, got=pts):
            return None
        for d in range(2):
            xs = sorted(p[d] for p in pts)
            ctx.check(xs[0] >= lo[d] - 1e-9 * rng_[d] and xs[-1] <= hi[d] + 1e-9 * rng_[d], 'doe-bounds', 'points outside the bounds', level=l, got=xs)
            ctx.check(abs((xs[-1] - xs[0]) - rng_[d] / 2. ** l) < 1e-9 * rng_[d], 'doe-extent', 'the extent does not halve with each level', level=l, got=xs[-1] - xs[0])
        x0, y0 = min(p[0] for p in pts), min(p[1] for p in pts)
        unit = sorted(key(((p[0] - x0) / rng_[0] * 2 ** l, (p[1] - y0) / rng_[1] * 2 ** l)) for p in pts)
        want = sorted(key(p) for p in [(a, b) for a in (0, .5, 1) for b in (0, .5, 1)] + [(a, b) for a in (.25, .75) for b in (.25, .75)])
        ctx.check(unit == want, 'doe-pattern', 'not the design pattern', level=l, got=unit)
        grids_.append(pts)
    return grids_


def doe(ctx, levels, which):
    lo, hi = BOUNDS[which]

    def run(ch):
        values = {}
        best = {}

        def answer(i, p):
            level, at = divmod(i, 13)
            if at == 0:
                best[level] = ch.pick(13)
            if p not in values:
                values[p] = level + .5 if at == best[level] else 0
            return values[p]
        ok, g = ctx.guard('doe-crash', DOE, lo, hi, levels)
        if not ok:
            return
        g.start(answer)
        ok, res = ctx.guard('doe-crash', g.search)
        if not ok:
            return
        ctx.state(tuple(sorted(best.items())))
        if not ctx.check(len(g.calls) == 13 * levels, 'doe-calls', 'not 13 evaluations per level', got=len(g.calls), levels=levels):
            return
        if doe_levels(ctx, lo, hi, levels, g.calls) is None:
            return
        ctx.check(values.get(key(res)) == max(values.values()), 'doe-best', 'the reported setting is not the best recorded one', winners=best, got=list(res),
                  perf=values.get(key(res)), best=max(values.values()))
        mid = tuple(a + (b - a) / 2. for a, b in zip(lo, hi))
        ctx.check(key(mid) in [key(p) for p in g.calls[:13]], 'doe-centre', 'the first level is not centred', got=g.calls[:13])
        for l in range(1, levels):
            known = dict((key(p), values[key(p)]) for p in g.calls[:13 * l])
            top = [p for p in known if known[p] == max(known.values())]
            ctx.check(any(p in set(map(key, g.calls[13 * l:13 * l + 13])) for p in top), 'doe-refine', 'a level does not refine around the best known point', level=l, winners=best)
        ctx.check(sorted((key(k), v) for k, v in g._performances.items()) == sorted(values.items()), 'doe-record', 'wrong recorded performances', winners=best)
        ctx.outcome(len(values))
    ctx.trans(explore(run).runs)


# ------------------------------------------------------------------------------- cost / gamma

class Net(object):
    def __init__(self):
        self.cost = self.gamma = None

    def reset(self):
        pass

    def activate(self, x):
        # hit or miss depends on the parameters and on the sample
        hit = (self.cost * 3 + self.gamma * 5 + x[0]) % 4 < 2
        return array([x[0] if hit else -1.])


class StubTrainer(object):
    log = []

    def __init__(self):
        self.module = Net()

    def setArgs(self, **kw):
        StubTrainer.log.append(('args', kw.get('cost'), kw.get('gamma')))
        self.module.cost, self.module.gamma = kw['cost'], kw['gamma']

    def setData(self, ds):
        StubTrainer.log.append(('data', tuple(sorted(float(x) for x in ds['input'].flatten()))))

    def train(self):
        StubTrainer.log.append(('train', None))

    def trainEpochs(self, n):
        StubTrainer.log.append(('train', n))


def costgamma(ctx, n, folds, kind, arg, epochs):
    ds = SupervisedDataSet(1, 1)
    for i in range(n):
        ds.addSample([float(i)], [float(i)])
    lo, hi = (-1, -2), (1, 1)

    def run(ch):
        StubTrainer.log = []
        tr = StubTrainer()
        kw = dict(nfolds=folds)
        if epochs:
            kw['max_epochs'] = epochs
        cls = GridSearchCostGamma if kind == 'grid' else GridSearchDOECostGamma
        ok, g = ctx.guard('cg-crash', cls, tr, ds, lo, hi, arg, **kw)
        if not ok:
            return
        with rng.control(ch, perms='rot' if kind == 'grid' and arg == 1 else 'none'):
            ok, best = ctx.guard('cg-crash', g.search)
        if not ok:
            return
        log = StubTrainer.log
        args = [l for l in log if l[0] == 'args']
        perfs = dict((key(k), v) for k, v in g._performances.items())
        want = [key((2. ** p[0], 2. ** p[1])) for p in perfs]
        ctx.check(sorted(key(a[1:]) for a in args) == sorted(want), 'cg-args', 'not one cross-validation per setting with 2**parameter', kind=kind, got=args[:20])
        ctx.check(tr.module.cost is None, 'cg-original', 'the given trainer was changed', kind=kind)
        ctx.check(all(l[1] == epochs for l in log if l[0] == 'train'), 'cg-epochs', 'not trained for the given number of epochs', kind=kind, epochs=epochs)
        datas = [l[1] for l in log if l[0] == 'data']
        ctx.check(len(datas) == folds * len(perfs), 'cg-folds', 'not one training per fold', kind=kind, got=len(datas), folds=folds)
        ctx.state((kind, tuple(datas[:folds])))
        if n % folds == 0:
            for p, v in perfs.items():
                c, gm = 2. ** p[0], 2. ** p[1]
                hits = sum((c * 3 + gm * 5 + i) % 4 < 2 for i in range(n)) / float(n)
                ctx.check(abs(v - hits) < 1e-9, 'cg-performance', 'not the cross-validated performance', kind=kind, params=p, got=v, want=hits)
            ctx.check(perfs[key(best)] == max(perfs.values()), 'cg-best', 'the reported setting is not the best one', kind=kind)
        ctx.outcome((kind, max(perfs.values())))
    ctx.trans(explore(run).runs)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('grids', grids, (9 if th else 7,)),
           ('assigned-2x2', assigned, ((2, 2), (-1., 0., 1., 2.), 0)),
           ('assigned-3x2', assigned, ((3, 2), (-1., 0., 2.), 1)),
           ('assigned-2x3', assigned, ((2, 3), (-1., 0., 2.), 2)),
           ('order', permutations, (200,))]
    if th:
        out.append(('assigned-3x3', assigned, ((3, 3), (0., 1., 2.), 1)))
    for w in range(len(BOUNDS)):
        for levels in ((1, 2, 3, 4) if th and w == 0 else (1, 2, 3)):
            out.append(('doe-%d-%d' % (w, levels), doe, (levels, w)))
    for n, folds in ((6, 2), (6, 3), (5, 2)):
        for epochs in (None, 4):
            out.append(('costgamma-grid-%d-%d-%s' % (n, folds, epochs), costgamma, (n, folds, 'grid', 3, epochs)))
            out.append(('costgamma-doe-%d-%d-%s' % (n, folds, epochs), costgamma, (n, folds, 'doe', 3, epochs)))
        out.append(('costgamma-one-%d-%d' % (n, folds), costgamma, (n, folds, 'grid', 1, None)))
    return out
