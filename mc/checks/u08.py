"""Every probability vector over a grid of twelfths with every value of a matching grid of uniform draws, every weak order of
values with every temperature, every small matrix shape, hitting history, noise history and weighted sample through the
numeric helpers, against direct reference computations."""

import itertools
import math
import numpy
from numpy import array
from scipy.stats import multivariate_normal
from mc import rng
from mc.choice import explore
from pybrain import utilities as ut
from pybrain.tools import functions as fn
from pybrain.tools import fisher
from pybrain.tools.aptativeresampling import AdaptiveResampler
from pybrain.tools.ibp import leftordered

ASSUMPTIONS = ['uniform draws come from the mid-points of a grid that divides every probability (plus the extremes 0 and just below 1)',
               'Gibbs weights are those of the softmax with exponents limited to 40 below the largest, as the code documents',
               'hitting times are computed for non-increasing target values, as documented',
               'the direction of the confidence returned by weightedUtest is not judged']


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def same(a, b, tol=1e-9):
    a, b = numpy.asarray(a, float), numpy.asarray(b, float)
    return a.shape == b.shape and bool(numpy.all(numpy.abs(a - b) <= tol * (1 + numpy.abs(b))))


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, parts - 1):
            yield (k,) + r


def with_u(u, f, *a, **kw):
    box = []

    def run(ch):
        with rng.control(ch, unit=[u]):
            box.append(f(*a, **kw))
    explore(run)
    return box


# ------------------------------------------------------------------------------- draws

def draws(ctx, grid, maxlen):
    mids = [(k + .5) / grid for k in range(grid)]
    for n in range(1, maxlen + 1):
        for comp in compositions(grid, n):
            ctx.state(comp)
            for kind in ('list', 'array', 'tolerant'):
                if kind == 'tolerant':
                    p = [c * 3. / grid for c in comp]
                else:
                    p = [c / float(grid) for c in comp]
                    p = array(p) if kind == 'array' else p
                counts = [0] * n
                for u in mids:
                    ctx.trans()
                    ok, got = ctx.guard('draw-crash', with_u, u, ut.drawIndex, p, tolerant=(kind == 'tolerant'))
                    if not ok:
                        return
                    for g in got:
                        counts[g] += 1
                ctx.check(counts == list(comp), 'draw', 'the index is not drawn with its probability', probs=comp, kind=kind, counts=counts)
                ctx.check(same(p, [c * (3. if kind == 'tolerant' else 1.) / grid for c in comp]), 'draw-argument', 'the probabilities were changed', probs=comp)
                for u in (0., 1 - 1e-7):
                    for g in with_u(u, ut.drawIndex, p, tolerant=(kind == 'tolerant')):
                        ctx.check(comp[g] > 0, 'draw-zero', 'an index of probability zero was drawn', probs=comp, u=u, got=g)
            if comp[0] > 0 and comp[0] != grid:
                for scale in (.5, 1.5):
                    ctx.trans()
                    try:
                        r = with_u(.5, ut.drawIndex, [c * scale / grid for c in comp])
                        ctx.fail('draw-unnormalized', 'probabilities that do not sum to 1 were accepted', probs=comp, scale=scale, got=r)
                    except ValueError:
                        pass
    ctx.outcome('draw')


def gibbs(ctx, grid, maxlen):
    for n in range(1, maxlen + 1):
        for vals in itertools.product((-3., 0., 0.5, 30.), repeat=n):
            ctx.state(vals)
            for temp in (0, .5, 1., 2, 10.):
                v = array(vals)
                if temp == 0:
                    best = set(i for i in range(n) if vals[i] == max(vals))
                    seen = set()

                    def run(ch):
                        with rng.control(ch):
                            ok, r = ctx.guard('gibbs-crash', ut.drawGibbs, v, temp)
                        if ok:
                            seen.add(r)
                    ctx.trans(explore(run).runs)
                    ctx.check(seen == best, 'gibbs-greedy', 'at temperature 0, not exactly the indices of the maximum', vals=vals, got=sorted(seen))
                else:
                    e = [math.exp(max((x - max(vals)) / float(temp), -40.)) for x in vals]
                    cum = numpy.cumsum(e) / sum(e)
                    for k in range(grid):
                        u = (k + .5) / grid
                        if min(abs(c - u) for c in cum) < 1e-9:
                            continue
                        ctx.trans()
                        want = [i for i in range(n) if cum[i] > u][0]
                        ok, got = ctx.guard('gibbs-crash', with_u, u, ut.drawGibbs, v, temp)
                        if ok:
                            ctx.check(got == [want], 'gibbs', 'not drawn with the softmax probabilities', vals=vals, temperature=temp, u=u, got=got, want=want)
                ctx.check((v == array(vals)).all(), 'gibbs-argument', 'the values were changed', vals=vals)
    ctx.outcome('gibbs')


# ------------------------------------------------------------------------------- scaling, ranking, activation helpers

def scaling(ctx, maxlen):
    alph = (-2., 0., .5, 3.)
    for n in range(1, maxlen + 1):
        for vals in itertools.product(alph, repeat=n):
            ctx.state(vals)
            a = array(vals)
            if min(vals) < max(vals):
                for lim in ((0., 1.), (-1., 1.), (2., 7.), (1., 0.)):
                    ctx.trans()
                    ok, got = ctx.guard('linscale-crash', ut.linscale, a, lim)
                    if ok:
                        want = [lim[0] + (x - min(vals)) * (lim[1] - lim[0]) / (max(vals) - min(vals)) for x in vals]
                        ctx.check(same(got, want), 'linscale', 'not the linear map onto the interval', vals=vals, lim=lim, got=list(got))
                ok, got = ctx.guard('linscale-crash', ut.linscale, array(vals).astype(int), (0, 4))
            ctx.check(tuple(a) == vals, 'linscale-argument', 'the argument was changed', vals=vals)
            ok, got = ctx.guard('ranking-crash', fn.ranking, list(vals))
            if ok:
                ctx.check(sorted(got) == list(range(n)) and all((vals[i] < vals[j]) <= (got[i] < got[j]) for i in range(n) for j in range(n)),
                          'ranking', 'not a linear ranking of the values', vals=vals, got=list(got))
            other = vals[1:] + vals[:1]
            for x, y in ((vals, other), (array(vals), list(other))):
                ctx.trans()
                got = ut.percentError(x, y)
                ctx.check(close(got, 100. * sum(p != q for p, q in zip(vals, other)) / n), 'percent', 'not the percentage of mismatches', a=vals, b=other, got=got)
    ctx.outcome('scaling')


def activations(ctx, fine):
    xs = [-600., -40., -5.] + [k / float(fine) for k in range(-3 * fine, 3 * fine + 1)] + [5., 40., 600.]
    ref = {'semilinear': lambda x: x + 1 if x >= 0 else math.exp(max(x, -500)), 'expln': lambda x: math.log(x + 1) + 1 if x >= 0 else math.exp(x),
           'semilinearPrime': lambda x: 1. if x >= 0 else math.exp(max(x, -500)), 'explnPrime': lambda x: 1 / (x + 1) if x >= 0 else math.exp(x),
           'sigmoid': lambda x: 1 / (1 + math.exp(min(500, -x))), 'tanhPrime': lambda x: 1 - math.tanh(x) ** 2,
           'safeExp': lambda x: math.exp(max(-500, min(500, x)))}
    ref['sigmoidPrime'] = lambda x: ref['sigmoid'](x) * (1 - ref['sigmoid'](x))
    for name, f in sorted(ref.items()):
        g = getattr(fn, name)
        for x in xs:
            ctx.state((name, x))
            shapes = [(1,), (2,), (2, 1), (1, 3), (2, 2)]
            if name in ('expln', 'explnPrime'):
                shapes = [(1,), (2,), ()]
            for shape in shapes:
                ctx.trans()
                arg = numpy.zeros(shape) + x
                if arg.size > 1:
                    arg.reshape(-1)[0] = 1.5
                before = arg.copy()
                ok, got = ctx.guard('activation-crash', g, arg if shape else x)
                if not ok:
                    continue
                got = numpy.asarray(got, float)
                want = array([f(v) for v in before.reshape(-1)]).reshape(shape)
                ctx.check(same(got, want), 'activation', 'not the documented function', name=name, x=x, shape=shape, got=got.tolist(), want=want.tolist())
                ctx.check((arg == before).all(), 'activation-argument', 'the argument was changed', name=name)
    ctx.outcome('activations')


# ------------------------------------------------------------------------------- matrices

def matrices(ctx, top):
    for d in range(1, top + 1):
        n = d * (d + 1) // 2
        for k in range(3):
            ctx.state((d, k))
            flat = array([(i * 7 + k * 3) % 11 - 5. for i in range(n)])
            ok, m = ctx.guard('triu-crash', ut.flat2triu, flat, d)
            if ok:
                ctx.trans()
                want = numpy.zeros((d, d))
                want[numpy.triu_indices(d)] = flat
                ctx.check(same(m, want), 'flat2triu', 'not the upper triangular matrix', flat=flat.tolist(), got=m.tolist())
                ctx.check(same(ut.triu2flat(m), flat), 'triu2flat', 'flattening does not invert', flat=flat.tolist())
                full = m + numpy.tril(numpy.ones((d, d)), -1) * 9
                ctx.check(same(ut.triu2flat(full), flat), 'triu2flat-lower', 'elements below the diagonal are used', flat=flat.tolist())
    for count in range(1, top):
        for dims in itertools.product(range(1, 4), repeat=count):
            ctx.state(('blocks', dims))
            ctx.trans()
            ms = [numpy.arange(d * d).reshape(d, d) + 1. + 10 * k for k, d in enumerate(dims)]
            ok, got = ctx.guard('block-diag-crash', ut.blockList2Matrix, ms)
            if ok:
                want = numpy.zeros((sum(dims), sum(dims)))
                at = 0
                for m in ms:
                    want[at:at + len(m), at:at + len(m)] = m
                    at += len(m)
                ctx.check(same(got, want), 'block-diag', 'not the block-diagonal matrix', dims=dims, got=got.tolist())
    for rows in range(1, top):
        for cols in range(1, top):
            for vd in itertools.product((1, 2), repeat=rows):
                for hd in itertools.product((1, 2, 3), repeat=cols):
                    ctx.state(('combine', vd, hd))
                    ctx.trans()
                    l = [[numpy.arange(v * h).reshape(v, h) + 1. + 10 * i + 100 * j for j, h in enumerate(hd)] for i, v in enumerate(vd)]
                    arg = [[b[0, 0] if b.size == 1 and (i + j) % 2 else (b[0] if len(b) == 1 else b) for j, b in enumerate(r)] for i, r in enumerate(l)]
                    ok, got = ctx.guard('combine-crash', ut.blockCombine, arg)
                    if ok:
                        ctx.check(same(got, numpy.vstack([numpy.hstack(r) for r in l])), 'combine', 'not the matrix of the blocks', vdims=vd, hdims=hd)
    for shape in ((1, 3), (2, 2), (3, 2), (2, 4)):
        for bits in itertools.product((0, 1), repeat=shape[0] * shape[1]):
            ctx.state(('lof', shape, bits))
            ctx.trans()
            m = array(bits).reshape(shape)
            ok, got = ctx.guard('leftordered-crash', leftordered, m)
            if ok:
                cols = sorted((tuple(c) for c in m.T), reverse=True)
                ctx.check([tuple(c) for c in got.T] == cols, 'leftordered', 'columns are not in descending binary order', matrix=m.tolist(), got=got.tolist())
    ctx.outcome('matrices')


def orthogonal(ctx, top):
    grids = [[.1, .9], [.3, .6], [.05, .45, .8], [.7, .2, .55, .35]]
    for d in range(2, top + 1):
        for g in grids:
            for name in ('sparse_orth', 'dense_orth'):
                ctx.state((d, tuple(g), name))
                ctx.trans()
                feed = rng.script(g) if name == 'sparse_orth' else rng.script([math.sqrt(k * k + 7 * k + len(g)) % 1. for k in range(1, 1 + d * d)])
                box = []

                def run(ch):
                    with rng.control(ch, unit=feed):
                        box.append(ctx.guard('orth-crash', getattr(ut, name), d))
                explore(run)
                for ok, q in box:
                    if ok:
                        q = q.toarray() if hasattr(q, 'toarray') else numpy.asarray(q)
                        ctx.check(q.shape == (d, d) and same(q.dot(q.T), numpy.eye(d), 1e-8), 'orth', 'not an orthogonal matrix', name=name, dim=d, got=q.tolist())
    ctx.outcome('orth')


def spd(d, k):
    a = array([[math.sin(1 + i * 3 + j * 5 + k * 7) for j in range(d)] for i in range(d)])
    return a.dot(a.T) + (0.3 + k * .5) * numpy.eye(d)


def gaussians(ctx, top, many):
    from scipy.linalg import cholesky, inv
    for d in range(1, top + 1):
        for k in range(many):
            sigma = spd(d, k)
            ctx.state((d, k))
            ok, r = ctx.guard('sqrtm-crash', fn.sqrtm, sigma)
            if ok:
                ctx.check(same(numpy.dot(r, r), sigma, 1e-6) and same(r, numpy.asarray(r).T) and min(numpy.linalg.eigvalsh(r)) > 0, 'sqrtm', 'not the symmetric square root', dim=d, k=k)
            for z in itertools.product((-1., 0., .5), repeat=d):
                ctx.trans()
                z = array(z)
                x = array([.2 * i - .1 for i in range(d)])
                ok, p = ctx.guard('pdf-crash', fn.multivariateNormalPdf, z, x, sigma)
                want = multivariate_normal.pdf(z, mean=x, cov=sigma)
                if ok:
                    ctx.check(close(p, want, 1e-8), 'pdf', 'not the density', dim=d, k=k, z=z.tolist(), got=float(p), want=float(want))
                A = cholesky(sigma)
                w = numpy.dot(inv(A).T, z - x)
                ok, p = ctx.guard('pdf-simple-crash', fn.simpleMultivariateNormalPdf, w, numpy.linalg.det(A))
                if ok:
                    ctx.check(close(p, want, 1e-8), 'pdf-simple', 'not the density', dim=d, k=k, z=z.tolist(), got=float(p), want=float(want))
            given = [dict(), dict(invSigma=inv(sigma)), dict(factorSigma=cholesky(sigma)), dict(invSigma=inv(sigma), factorSigma=cholesky(sigma))]
            isig, f = inv(sigma), cholesky(sigma)
            want = [isig]
            for i in range(d):
                b = isig[i:, i:].copy()
                b[0, 0] += f[i, i] ** -2
                want.append(b)
            for kw in given:
                ctx.trans()
                ok, got = ctx.guard('fisher-crash', fisher.calcFisherInformation, sigma, **kw)
                if ok:
                    ctx.check(len(got) == len(want) and all(same(a, b, 1e-7) for a, b in zip(got, want)), 'fisher', 'not the Fisher information blocks', dim=d, k=k, given=sorted(kw))
                ok, got = ctx.guard('fisher-inverse-crash', fisher.calcInvFisher, sigma, **kw)
                if ok:
                    ctx.check(len(got) == len(want) and all(same(numpy.dot(numpy.asarray(a), b), numpy.eye(len(b)), 1e-6) for a, b in zip(got, want)),
                              'fisher-inverse', 'the blocks do not invert the Fisher information', dim=d, k=k, given=sorted(kw))
    for d in range(1, 200):
        ctx.trans()
        chi = math.sqrt(2) * math.exp(math.lgamma((d + 1) / 2.) - math.lgamma(d / 2.))
        ctx.check(abs(fn.approxChiFunction(d) - chi) < .02, 'chi', 'not the expected length of a normal vector', dim=d, got=float(fn.approxChiFunction(d)), want=chi)
    ctx.outcome('gaussians')


# ------------------------------------------------------------------------------- histories

def hitting(ctx, maxlen, alph):
    seqs = [s for n in range(1, maxlen + 1) for s in itertools.product(alph, repeat=n)]
    targets = [t for n in (1, 2, 3) for t in itertools.product((3, 2, 0, -1), repeat=n) if all(a >= b for a, b in zip(t, t[1:]))]

    def first(seq, t, longest):
        for i, v in enumerate(seq):
            if v <= t:
                return i
        return longest

    def check(lists, ts):
        longest = max(len(l) for l in lists)
        hits = [[first(l, t, longest) for t in ts] for l in lists]
        for bs in (1, 5):
            ctx.trans()
            ok, got = ctx.guard('hitting-crash', ut.avgFoundAfter, list(ts), [list(l) for l in lists], bs)
            if ok:
                ctx.check(same(got, numpy.mean(hits, axis=0) * bs), 'hitting', 'not the average number of steps', targets=ts, lists=lists, got=list(got))
            ok, got = ctx.guard('hitting-crash', ut.avgFoundAfter, list(ts), [list(l) for l in lists], bs, useMedian=True)
            if ok:
                ctx.check(same(got, numpy.median(hits, axis=0) * bs), 'hitting-median', 'not the median number of steps', targets=ts, lists=lists, got=list(got))
    for s in seqs:
        ctx.state(s)
        for ts in targets:
            check([s], ts)
    short = [s for s in seqs if len(s) <= 2]
    for a in short:
        for b in seqs:
            ctx.state((a, b))
            for ts in targets[::3]:
                check([a, b], ts)
    for trio in itertools.product(short[:8], repeat=3):
        for ts in targets[::4]:
            check(list(trio), ts)
    ctx.outcome('hitting')


def utest(ctx, maxlen):
    samples = [s for n in range(1, maxlen + 1) for s in itertools.product((0., 1., 2.), repeat=n)]
    for a in samples:
        for b in samples:
            ctx.state((a, b))
            ctx.trans()
            ok, r = ctx.guard('utest-crash', ut.weightedUtest, a, [1] * len(a), b, [1] * len(b))
            if not ok:
                return
            back = ut.weightedUtest(b, [1] * len(b), a, [1] * len(a))
            ctx.check(0 <= r <= 1 and close(r + back, 1.), 'utest-sym', 'the two directions are not complementary', a=a, b=b, got=[r, back])
            # weights: an entry of weight 2 is two entries
            for k in range(len(a)):
                w = [1 + (i == k) for i in range(len(a))]
                r1 = ut.weightedUtest(a, w, b, [1] * len(b))
                r2 = ut.weightedUtest(a + (a[k],), [1] * (len(a) + 1), b, [1] * len(b))
                ctx.check(close(r1, r2), 'utest-weight', 'an entry of weight 2 does not equal two entries', a=a, b=b, at=k, got=[r1, r2])
            order = [ut.weightedUtest([x + 5 * s for x in a], [1] * len(a), b, [1] * len(b)) for s in (-1, 0, 1)]
            ctx.check(order == sorted(order) or order == sorted(order, reverse=True), 'utest-monotone', 'not monotone in a shift of one sample', a=a, b=b, got=order)
    ctx.outcome('utest')


class Noisy(object):
    def __init__(self, ch, alph):
        self.ch, self.alph, self.given = ch, alph, []

    def __call__(self, x):
        v = self.alph[self.ch.pick(len(self.alph))]
        self.given.append(v)
        return v


def resampler(ctx, calls, batch, alph, cap):
    def run(ch):
        f = Noisy(ch, alph)
        r = AdaptiveResampler(f, batch, update_factor=2, threshold=.5, max_resampling=cap)
        over = 1
        recents = [None] * batch
        for k in range(calls):
            f.given = []
            ok, res = ctx.guard('resample-crash', r, 0.)
            if not ok:
                return
            twice = k > 0 and k % batch == 0
            if not ctx.check(len(f.given) == int(over) * (2 if twice else 1), 'resample-count', 'not the current number of samples', call=k, got=len(f.given), want=int(over)):
                return
            m = [float(numpy.median(f.given[i:i + int(over)])) for i in range(0, len(f.given), int(over))]
            ctx.check(close(res, sum(m) / len(m)), 'resample-value', 'not the median (or mean of the two medians)', call=k, got=float(res), want=sum(m) / len(m))
            if twice:
                # rank changes of the pair among the other recent values
                between = sum(min(m) < v < max(m) for v in recents[1:])
                if between >= .5 * (batch - 1):
                    over = min(over * 2, cap)
                elif between == 0:
                    over = max(over / 2., 1)
            recents[k % batch] = sum(m) / len(m)
            ctx.check(r.resample_over == over, 'resample-rate', 'not the expected number of samples', call=k, got=r.resample_over, want=over)
            ctx.state((k, over, tuple(recents)))
        ctx.outcome(over)
    ctx.trans(explore(run).runs)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('draw', draws, (12, 4 if th else 3)),
           ('gibbs', gibbs, (40 if th else 16, 4 if th else 3)),
           ('scaling', scaling, (6 if th else 5,)),
           ('activations', activations, (20 if th else 8,)),
           ('matrices', matrices, (5 if th else 4,)),
           ('orth', orthogonal, (9 if th else 7,)),
           ('gaussians', gaussians, (5 if th else 4, 6 if th else 3)),
           ('hitting', hitting, (5 if th else 4, (-2, 1, 2, 5) if th else (-2, 1, 5))),
           ('utest', utest, (4 if th else 3,)),
           ('resample-2', resampler, (7 if th else 5, 2, (0., 1., 2.), 2)),
           ('resample-3', resampler, (7, 3, (0., 1., 2.) if th else (0., 2.), 2))]
    return out
