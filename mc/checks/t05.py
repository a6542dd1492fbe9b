"""Contrastive divergence on the real machines and trainers: every outcome of the hidden-unit sampler (both sampler kinds) over small
machines, data sets, batch sizes and numbers of iterations, for several calls of train, against a direct computation in plain Python;
construction and inversion for every shape; greedy training of layer chains of two and three layers over every sampler outcome."""

import itertools, math
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet
from pybrain.structure import LinearLayer, SigmoidLayer, FullConnection, BiasUnit, FeedForwardNetwork
from pybrain.structure.networks.rbm import Rbm
from pybrain.unsupervised.trainers.rbm import RbmGibbsTrainerConfig, RbmBernoulliTrainer, RbmGaussTrainer
from pybrain.unsupervised.trainers.deepbelief import DeepBeliefTrainer

ASSUMPTIONS = ['momentum starts at zero with every batch, as the iterations of a batch are what the configuration counts',
               'chains of fully connected layers with one bias, linear input and sigmoid layers above it']
GAUSS = 0.3
sig = lambda x: 1. / (1. + math.exp(-x))


def close(a, b, tol=1e-9):
    a, b = array(a, dtype=float).ravel(), array(b, dtype=float).ravel()
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1., abs(y)) for x, y in zip(a, b))


def values(n, k=0):
    return [((j * 7 + k * 5 + 3) % 11 - 5) / 5. for j in range(n)]


def up(W, hb, v):
    return [sig(sum(w * x for w, x in zip(row, v)) + b) for row, b in zip(W, hb)]


def down(W, vb, h):
    return [sig(sum(W[i][j] * h[i] for i in range(len(h))) + vb[j]) for j in range(len(vb))]


def learn(W, hb, vb, batches, cfg, kind, draw):
    """the documented updates; returns new (W, hb, vb)"""
    H, V = len(hb), len(vb)
    W, hb, vb = [list(r) for r in W], list(hb), list(vb)
    for rows in batches:
        mW, mh, mv = [[0.] * V for _ in range(H)], [0.] * H, [0.] * V
        for t in range(cfg.maxIter):
            mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
            dW, dh, dv = [[0.] * V for _ in range(H)], [0.] * H, [0.] * V
            for row in rows:
                p = up(W, hb, row)
                if kind == 'bernoulli':
                    s = [1. if draw() < x else 0. for x in p]
                else:
                    s = [x + draw() for x in p]
                r = down(W, vb, s)
                q = up(W, hb, r)
                for i in range(H):
                    dh[i] += (p[i] - q[i]) / len(rows)
                    for j in range(V):
                        dW[i][j] += (p[i] * row[j] - q[i] * r[j]) / len(rows)
                for j in range(V):
                    dv[j] += (row[j] - r[j]) / len(rows)
            mW = [[mm * mW[i][j] + cfg.rWeights * (dW[i][j] - cfg.weightCost * W[i][j]) for j in range(V)] for i in range(H)]
            mh = [mm * m + cfg.rHidBias * d for m, d in zip(mh, dh)]
            mv = [mm * m + cfg.rVisBias * d for m, d in zip(mv, dv)]
            W = [[w + m for w, m in zip(a, b)] for a, b in zip(W, mW)]
            hb = [a + b for a, b in zip(hb, mh)]
            vb = [a + b for a, b in zip(vb, mv)]
    return W, hb, vb


def batched(rows, size):
    """every order the batches can come in"""
    parts = [rows[i:i + size] for i in range(0, len(rows), size)]
    return [list(p) for p in itertools.permutations(parts)]


def config(i):
    cfg = RbmGibbsTrainerConfig()
    cfg.batchSize, cfg.maxIter, cfg.mmSwitchIter, cfg.rWeights, cfg.rHidBias, cfg.rVisBias, cfg.weightCost, cfg.iniMm, cfg.finMm = i
    return cfg


def matrix(flat, H, V):
    return [list(map(float, flat[i * V:(i + 1) * V])) for i in range(H)]


def unsupervised(rows):
    ds = UnsupervisedDataSet(len(rows[0]))
    for r in rows:
        ds.addSample(r)
    return ds


def supervised(rows):
    ds = SupervisedDataSet(len(rows[0]), 1)
    for r in rows:
        ds.addSample(r, [7.])
    return ds


KINDS = dict(bernoulli=RbmBernoulliTrainer, gauss=RbmGaussTrainer)


def control(ch, kind, menu):
    return rng.control(ch, unit=menu, gauss=(GAUSS,)) if kind == 'bernoulli' else rng.control(ch, gauss=menu, randn=(GAUSS,))


def drawn(log, kind):
    it = iter([e[1] for e in log if e[0] == ('u' if kind == 'bernoulli' else 'g')])
    return lambda: next(it)


# ------------------------------------------------------------------------------------------ the machine itself
def machines(ctx, top):
    for V, H in itertools.product(range(1, top + 1), repeat=2):
        for k in range(3):
            w, b = values(V * H, k), values(H, k + 1)
            aw, ab = array(w), array(b)
            for how in ('dims', 'modules'):
                if how == 'dims':
                    ok, r = ctx.guard('machine', Rbm.fromDims, V, H, aw, ab)
                else:
                    vis, hid, bias = LinearLayer(V, 'visible'), SigmoidLayer(H, 'hidden'), BiasUnit('bias')
                    c1, c2 = FullConnection(vis, hid), FullConnection(bias, hid)
                    c1.params[:] = aw
                    c2.params[:] = ab
                    ok, r = ctx.guard('machine', Rbm.fromModules, vis, hid, bias, c1, c2)
                ctx.trans()
                if not ok:
                    continue
                info = dict(visible=V, hidden=H, how=how, k=k)
                ctx.check((r.visibleDim, r.hiddenDim) == (V, H), 'machine', 'wrong dimensions', got=(r.visibleDim, r.hiddenDim), **info)
                W = matrix(w, H, V)
                bb = b
                for step in range(2):
                    ctx.check(close(r.params, sum(W, [])) and close(r.biasParams, bb), 'machine', 'the parameters are not the ones given', got=(list(r.params), list(r.biasParams)), step=step, **info)
                    inv = r.invert()
                    ctx.check((inv.visibleDim, inv.hiddenDim) == (H, V), 'inverse', 'wrong dimensions of the inverse', **info)
                    vb = list(map(float, inv.biasParams))
                    for x in itertools.product((0., 1., -.5), repeat=V):
                        ctx.check(close(r.activate(x), up(W, bb, x)), 'machine', 'wrong hidden probabilities', x=x, got=r.activate(x), want=up(W, bb, x), step=step, **info)
                    for h in itertools.product((0., 1.), repeat=H):
                        ctx.check(close(inv.activate(h), down(W, vb, h)), 'inverse', 'wrong visible probabilities', h=h, got=inv.activate(h), want=down(W, vb, h), step=step, **info)
                    back = inv.invert()
                    ctx.check(close(back.params, sum(W, [])), 'inverse', 'inverting twice changes the weights', step=step, **info)
                    inv.params[:] = 0.
                    ctx.check(close(r.params, sum(W, [])), 'inverse', 'a machine shares its weights with its inverse', step=step, **info)
                    # the parameters are live
                    W, bb = matrix(values(V * H, k + 4), H, V), values(H, k + 6)
                    r.params[:] = sum(W, [])
                    r.biasParams[:] = bb
                ctx.check(list(aw) == w and list(ab) == b, 'machine', 'the arrays given are changed or shared', **info)
                ctx.state((V, H, how, k))
                ctx.trace()
    ctx.outcome('done')


# ------------------------------------------------------------------------------------------ contrastive divergence
def divergence(ctx, kind, cases):
    for V, H, rows, conf, calls, menu in cases:
        cfg = config(conf)

        def run(ch):
            rbm = Rbm.fromDims(V, H, array(values(V * H, 1)), array(values(H, 2)))
            make = (unsupervised, supervised)[ch.pick(2)] if calls == 1 else unsupervised
            ds = make(rows)
            t = KINDS[kind](rbm, ds, cfg)
            t.invRbm.biasParams[:] = values(V, 4)
            cur = [(matrix(values(V * H, 1), H, V), values(H, 2), values(V, 4))]
            info = dict(kind=kind, visible=V, hidden=H, rows=rows, cfg=conf)
            for call in range(calls):
                with control(ch, kind, menu) as c:
                    if call % 2 == 0:
                        ok, _ = ctx.guard('train', t.train)
                    else:
                        ok, _ = ctx.guard('train', t.trainOnDataset, ds)
                    log = list(c.log)
                if not ok:
                    return
                ctx.trans()
                new = []
                for W, hb, vb in cur:
                    for b in batched(rows, cfg.batchSize):
                        try:
                            new.append(learn(W, hb, vb, b, cfg, kind, drawn(log, kind)))
                        except StopIteration:
                            ctx.check(False, 'draws', 'too few draws for one sample of the hidden units per row and iteration', draws=len(log), **info)
                            return
                got = (list(rbm.params), list(rbm.biasParams), list(t.invRbm.params), list(t.invRbm.biasParams))
                cur = [(W, hb, vb) for W, hb, vb in new
                       if close(got[0], sum(W, [])) and close(got[1], hb) and close(got[2], sum(map(list, zip(*W)), [])) and close(got[3], vb)]
                if not ctx.check(cur, 'update', 'the parameters are not those of contrastive divergence with momentum', call=call, got=got, want=new[:1], log=log, **info):
                    return
                n = len([e for e in log if e[0] == ('u' if kind == 'bernoulli' else 'g')])
                ctx.state((kind, V, H, conf, tuple(round(float(x), 9) for x in got[0])))
            ctx.check(close(ds['input' if make is supervised else 'sample'], sum(map(list, rows), [])), 'data', 'training changes the data', **info)
            x = rows[0]
            W, hb, vb = cur[0]
            ctx.check(close(rbm.activate(x), up(W, hb, x)), 'update', 'the trained machine does not compute with its parameters', **info)
            ctx.outcome(tuple(round(float(x), 6) for x in rbm.params))
            ctx.trace()
        explore(run)


# ------------------------------------------------------------------------------------------ layer by layer
def chain(dims, names):
    net = FeedForwardNetwork()
    bias = BiasUnit(names % 'bias')
    layers = [LinearLayer(dims[0], names % 'l0')] + [SigmoidLayer(d, names % ('l%d' % i)) for i, d in enumerate(dims) if i]
    net.addModule(bias)
    net.addInputModule(layers[0])
    for l in layers[1:-1]:
        net.addModule(l)
    net.addOutputModule(layers[-1])
    cons = []
    for k in reversed(range(len(dims) - 1)):
        cons.insert(0, (FullConnection(layers[k], layers[k + 1]), FullConnection(bias, layers[k + 1])))
        for c in cons[0]:
            net.addConnection(c)
    net.sortModules()
    for k, (c, b) in enumerate(cons):
        c.params[:] = values(len(c.params), k)
        b.params[:] = values(len(b.params), k + 3)
    return net, cons


def deep(ctx, cases):
    for dims, rows, conf, epochs, kind, menu in cases:
        cfg = config(conf)

        def run(ch):
            make, names = ((unsupervised, '%s'), (supervised, 'z-%s'))[ch.pick(2)]
            net, cons = chain(dims, names)
            ds = make(rows)
            info = dict(dims=dims, rows=rows, cfg=conf, epochs=epochs, kind=kind, names=names)
            with control(ch, kind, menu) as c:
                ok, t = ctx.guard('deep', DeepBeliefTrainer, net, ds, epochs, cfg, kind)
                if not ok:
                    return
                ok, _ = ctx.guard('deep', t.train)
                log = list(c.log)
            if not ok:
                return
            ctx.trans()
            draw = drawn(log, kind)
            data = [list(r) for r in rows]
            want = []
            try:
                for k in range(len(dims) - 1):
                    W, hb, vb = matrix(values(dims[k] * dims[k + 1], k), dims[k + 1], dims[k]), values(dims[k + 1], k + 3), [GAUSS] * dims[k]
                    for _ in range(epochs):
                        W, hb, vb = learn(W, hb, vb, [data], cfg, kind, draw)
                    data = [up(W, hb, r) for r in data]
                    want.append((W, hb))
            except StopIteration:
                ctx.check(False, 'deep', 'too few draws for one sample of the hidden units per row and iteration', draws=len(log), **info)
                return
            for k, ((W, hb), (con, bcon)) in enumerate(zip(want, cons)):
                ctx.check(close(con.params, sum(W, [])) and close(bcon.params, hb), 'deep', 'a layer does not have the weights learnt on the outputs of the trained layers below', layer=k,
                          got=(list(con.params), list(bcon.params)), want=(W, hb), log=log, **info)
                ctx.state((dims, kind, k, tuple(round(float(x), 9) for x in con.params)))
            for r, d in zip(rows, data):
                ctx.check(close(net.activate(r), d), 'deep', 'the trained network does not compute the trained chain', got=net.activate(r), want=d, **info)
            ctx.check(close(sorted(net.params), sorted(sum([list(c.params) + list(b.params) for c, b in cons], []))), 'deep', 'the network does not hold the parameters of its layers', **info)
            net.params[:] = [0.25 * (i % 5 - 2) for i in range(len(net.params))]
            ctx.check(close(sorted(net.params), sorted(sum([list(c.params) + list(b.params) for c, b in cons], []))), 'deep', 'the layers do not share the parameters of the network', **info)
            ctx.check(close(ds['input' if make is supervised else 'sample'], sum(map(list, rows), [])) and len(ds) == len(rows), 'data', 'training changes the data', **info)
            ctx.outcome(tuple(round(x, 6) for x in want[-1][1]))
            ctx.trace()
        explore(run)


def jobs(tier, seed):
    more = tier != 'quick'
    std = (10, 1, 5, .1, .1, .1, .0002, .5, .9)
    two = (1, 2, 1, .2, .3, .4, .01, .5, .9)
    long_ = (10, 4, 2, .5, .25, .125, .1, .25, .75)
    one, pair, trio = [(1., 0.)], [(1., 0.), (0., 1.)], [(1., 1., 0.), (0., 1., 1.), (.5, 0., 1.)]
    B = [.1, .5, .9]
    C = [.2, .8]
    cases = [(2, 2, one, std, 2, B), (2, 2, pair, std, 1, B), (2, 1, pair, two, 1, B), (2, 1, one, long_, 2, C), (1, 2, [(1.,)], long_, 1, B if more else C), (3, 1, trio, two, 1, C), (3, 2, trio, std, 1, C),
             (2, 1, pair, (2, 3, 1, .2, .3, .4, .01, .5, .9), 1, C)]
    if more:
        cases += [(2, 2, pair, two, 1, C), (3, 2, trio, (2, 1, 5, .1, .1, .1, .5, .5, .9), 1, B), (2, 1, pair, long_, 1, B), (2, 3, pair, std, 2, C)]
    G = [-1., .5]
    D = [((2, 2, 1), pair, std, 1, 'bernoulli', B), ((2, 1, 2), one, std, 2, 'bernoulli', C), ((1, 2, 1, 1), [(1.,), (0.,)], std, 1, 'bernoulli', C), ((2, 2), one, (10, 3, 2, .5, .25, .125, .1, .25, .75), 1, 'bernoulli', C),
         ((3, 1, 1), trio[:2], (5, 2, 1, .2, .3, .4, .01, .5, .9), 1, 'bernoulli', C), ((2, 2, 1), pair, std, 1, 'gauss', G), ((2, 1, 2), one, two, 1 if not more else 2, 'gauss', G)]
    if more:
        D += [((2, 2, 2), pair, std, 1, 'bernoulli', B), ((2, 1, 1, 1), pair, std, 2, 'bernoulli', C), ((2, 2, 1), one, long_, 1, 'bernoulli', C)]
    js = [('machines', machines, (3 if not more else 4,))]
    for i, c in enumerate(cases):
        js.append(('bernoulli-%d' % i, divergence, ('bernoulli', [c])))
    for i, c in enumerate(cases):
        js.append(('gauss-%d' % i, divergence, ('gauss', [c[:5] + (G,)])))
    for i, c in enumerate(D):
        js.append(('deep-%d' % i, deep, ([c],)))
    return js
