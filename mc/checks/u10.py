"""Every small table of points through the principal component analyses (exact and probabilistic, under scripted starting points) and through
k-means++ with every choice of the first centre, against the definitions: orthonormal axes of largest variance, projections of the
centred data, greedy seeding among the data points, clusters around their means."""

import itertools, warnings
import numpy as np
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.auxiliary import pca as P
from pybrain.auxiliary.kmeans import kinit, kmeanspp

warnings.simplefilter('ignore')
ASSUMPTIONS = ['the order and the sign of the components are open', 'the probabilistic analysis is judged on data of full rank with a clear gap, up to its convergence tolerance',
               'there are at least two points, and at least as many points as centres', 'values compared up to 1e-7']


def tables(d, n, vals):
    pts = list(itertools.product(vals, repeat=d))
    return itertools.combinations_with_replacement(pts, n)


def exact(ctx, d, n, vals):
    for t in tables(d, n, vals):
        X = array(t)
        keep = X.copy()
        C = X - X.mean(axis=0)
        S = C.T.dot(C) / (n - 1)
        ev = sorted(np.linalg.eigvalsh(S))
        ctx.state(t)
        ok, cen = ctx.guard('centre-crash', P.makeCentered, X)
        if ok:
            ctx.check(abs(cen - C).max() < 1e-9 and (X == keep).all(), 'centre', 'the data are not centred', table=t, got=cen)
        for k in range(1, d + 1):
            ctx.trans()
            ok, W = ctx.guard('pca-crash', P.pca, X, k)
            if not ok:
                continue
            W = array(W)
            if not ctx.check(W.shape == (k, d) and W.dtype.kind == 'f', 'pca-shape', 'the components have a wrong shape or type', table=t, dim=k, got=(W.shape, str(W.dtype))):
                continue
            ctx.check(abs(W.dot(W.T) - np.eye(k)).max() < 1e-7, 'pca-orthonormal', 'the components are not orthonormal', table=t, dim=k, got=W.tolist())
            ctx.check(abs(np.trace(W.dot(S).dot(W.T)) - sum(ev[-k:])) < 1e-7, 'pca-variance', 'the components do not carry the largest variance', table=t, dim=k, got=W.tolist())
            M = W.dot(S).dot(W.T)
            ctx.check(abs(M - np.diag(np.diag(M))).max() < 1e-7, 'pca-axes', 'the components are not the principal axes', table=t, dim=k, got=W.tolist())
            ok, R = ctx.guard('reduce-crash', P.reduceDim, X, k)
            if ok:
                ctx.check(R.shape == (n, k) and abs(array(R) - C.dot(W.T)).max() < 1e-7, 'reduce', 'the reduced points are not the projections', table=t, dim=k, got=array(R).tolist())
            ctx.check((X == keep).all(), 'pca-data', 'the data were changed', table=t)
            ctx.trace()
        for bad in (d + 1,):
            try:
                P.pca(X, bad)
                ctx.fail('pca-dim', 'more components than dimensions', table=t)
            except AssertionError:
                pass
        try:
            P.reduceDim(X, 1, func='nosuch')
            ctx.fail('pca-func', 'an unknown method is accepted', table=t)
        except ValueError:
            pass


class Enough(Exception):
    pass


def probabilistic(ctx, d, n, vals, gap):
    for t in tables(d, n, vals):
        X = array(t)
        C = X - X.mean(axis=0)
        S = C.T.dot(C) / (n - 1)
        ev, V = np.linalg.eigh(S)
        for k in range(1, d):
            if ev[d - k - 1] * gap > ev[d - k] or ev[d - k] < 0.1:
                continue
            want = V[:, d - k:].dot(V[:, d - k:].T)
            def run(ch):
                ctx.trans()
                base = array([[[1., 0.3, -0.4], [0.2, 1., 0.5], [-0.3, 0.4, 1.]], [[-0.5, 1., 0.2], [1., 0.4, 0.3], [0.7, 0.2, -1.]], [[0.9, 0.8, 0.1], [-0.6, 0.7, 0.2], [0.3, -0.9, 0.5]]])[ch.pick(3)]
                W0 = base[:d, :k]
                if abs(np.linalg.det(V[:, d - k:].T.dot(W0))) < 0.05:
                    return
                orig = P.standard_normal
                P.standard_normal = lambda size: W0.copy().reshape(size)
                try:
                    ok, W = ctx.guard('ppca-crash', P.pPca, X, k)
                    ok2, R = ctx.guard('ppca-reduce-crash', P.reduceDim, X, k, func='pPca')
                finally:
                    P.standard_normal = orig
                if ok:
                    W = array(W)
                    if ctx.check(W.shape == (k, d), 'ppca-shape', 'the components have a wrong shape', table=t, dim=k, got=W.shape):
                        Q, _ = np.linalg.qr(W.T)
                        ctx.check(abs(Q.dot(Q.T) - want).max() < 0.02, 'ppca-span', 'the components do not span the principal space', table=t, dim=k, start=W0.tolist(), got=W.tolist())
                        if ok2:
                            ctx.check(abs(array(R) - C.dot(W.T)).max() < 1e-7, 'ppca-reduce', 'the reduced points are not the projections', table=t, dim=k)
                ctx.state((t, k, W0.tolist()[0][0]))
                ctx.trace()
            explore(run)


def cost(X, centres):
    return sum(min(((x - c) ** 2).sum() for c in centres) for x in X)


def clusters(ctx, d, n, vals):
    seen = {}
    for t in tables(d, n, vals):
        X = array(t)
        keep = X.copy()
        for k in range(1, n + 1):
            for whole in (False, True):
                def run(ch):
                    ctx.trans()
                    with rng.control(ch):
                        if not whole:
                            ok, S = ctx.guard('seed-crash', kinit, X, k)
                        else:
                            ok, res = ctx.guard('kmeans-crash', kmeanspp, X, k)
                    if not ok:
                        return
                    ctx.check((X == keep).all(), 'kmeans-data', 'the data were changed', table=t)
                    if not whole:
                        S = array(S)
                        if not ctx.check(S.shape == (k, d), 'seed-shape', 'wrong number of centres', table=t, k=k, got=S.tolist()):
                            return
                        ctx.check(all(any((x == s).all() for x in X) for s in S), 'seed-points', 'a centre is not a data point', table=t, k=k, got=S.tolist())
                        for j in range(1, k):
                            best = min(cost(X, list(S[:j]) + [x]) for x in X)
                            ctx.check(cost(X, S[:j + 1]) <= best + 1e-9, 'seed-greedy', 'a further centre does not reduce the potential most', table=t, k=k, j=j, got=S.tolist())
                        ctx.outcome((t, k, tuple(map(float, S[0]))))
                        seen.setdefault((t, k), set()).add(tuple(map(float, S[0])))
                    else:
                        cen, lab = res
                        lab = [int(i) for i in lab]
                        ctx.check(len(lab) == n and all(0 <= i < k for i in lab) and cen.shape == (k, d), 'kmeans-shape', 'wrong number of labels or centres', table=t, k=k)
                        ok = all(abs(cen[i] - X[[j for j in range(n) if lab[j] == i]].mean(axis=0)).max() < 1e-7 for i in set(lab))
                        ctx.check(ok, 'kmeans-means', 'a centre is not the mean of its points', table=t, k=k, centres=cen.tolist(), labels=lab)
                        ctx.check(all(((X[j] - cen[lab[j]]) ** 2).sum() <= min(((X[j] - c) ** 2).sum() for c in cen) + 1e-7 for j in range(n)), 'kmeans-nearest',
                                  'a point does not belong to the nearest centre', table=t, k=k, centres=cen.tolist(), labels=lab)
                    ctx.state((t, k, whole, tuple(ch.taken)))
                    ctx.trace()
                explore(run)
        # every point occurs as the first centre
    for (t, k), firsts in seen.items():
        ctx.check(firsts == set(t), 'seed-first', 'not every point can be the first centre', table=t, k=k, got=sorted(firsts))


def jobs(tier, seed):
    if tier == 'quick':
        return [('exact-1', exact, (1, 3, (-1., 0., 2.5))), ('exact-2', exact, (2, 3, (0., 1., 3.))), ('exact-3', exact, (3, 3, (0., 1.))), ('exact-3-4', exact, (3, 4, (0., 1.))),
                ('prob-2', probabilistic, (2, 3, (0., 1., 3.), 4)), ('prob-3', probabilistic, (3, 4, (0., 1.), 4)),
                ('kmeans-1', clusters, (1, 3, (0., 1., 4., 6.))), ('kmeans-2', clusters, (2, 3, (0., 1., 3.)))]
    return [('exact-1', exact, (1, 4, (-1., 0., 2.5, 3.))), ('exact-2', exact, (2, 4, (0., 1., 3.))), ('exact-3', exact, (3, 3, (0., 1., 3.))), ('exact-3-5', exact, (3, 5, (0., 1.))),
            ('exact-4', exact, (4, 3, (0., 1.))),
            ('prob-2', probabilistic, (2, 4, (0., 1., 3.), 3)), ('prob-3', probabilistic, (3, 5, (0., 1.), 3)),
            ('kmeans-1', clusters, (1, 4, (0., 1., 4., 6., 7.5))), ('kmeans-2', clusters, (2, 4, (0., 1., 3.)))]
