"""Back-propagation trainers on small networks against their definition: the gradient of every sequence comes from an independent evaluator of the graph (complex step), the update rule from its formula.
Every outcome of the shuffling of the sequences is explored; a training epoch must lead to the weights, momentum and error of one of the orders of all sequences, each sequence once.
Every history up to the depth bound over epochs, evaluations, writes to the module's parameters and changes of the data set, for every combination of learning rate, decay, momentum, weight decay and batch mode,
on independent, sequential and importance-weighted data, feed-forward and recurrent networks, with plain and resilient descent. Evaluation must change neither parameters nor derivatives."""

import itertools
import numpy as np
from mc import netref as R
from mc.choice import explore
from mc import rng
from mc.canon import close
from mc.checks.n03 import plus, paths, H

ASSUMPTIONS = ['a sequence of more than one sample is only trained on a recurrent network', 'fixed irregular weights and samples, two networks of each kind']


def spec_of(which):
    if which == 'ff':
        return dict(mods=[('i', 'linear', 1, None), ('b', 'bias', 1, None), ('h', 'tanh', 1, None), ('o', 'linear', 2, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'h', name='c1'), R.conn('full', 'b', 'h', name='c2'), R.conn('full', 'h', 'o', name='c3')])
    if which == 'shared':
        return dict(mods=[('i', 'linear', 1, None), ('h', 'sigmoid', 1, None), ('o', 'linear', 1, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('sfull', 'i', 'h', name='s1', mother='mo', nparams=1), R.conn('sfull', 'h', 'o', name='s2', mother='mo', nparams=1), R.conn('linear', 'i', 'o', name='c3')])
    if which == 'rec':
        return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('h', 'tanh', 1, None), ('o', 'linear', 1, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'h', name='c1'), R.conn('full', 'h', 'o', name='c2')], rec=[R.conn('full', 'h', 'h', name='r')])
    if which == 'lstm':
        return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('l', 'lstmp', 1, None), ('o', 'linear', 1, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'l', name='c1'), R.conn('full', 'l', 'o', name='c2')], rec=[R.conn('full', 'o', 'l', name='r')])
    raise KeyError(which)


def num(i, j, salt):
    return (((i * 7 + 3 * j + salt * 5 + 1) * 37) % 23) / 11.0 - 0.97


def data_of(kind, nin, nout, salt=0):
    """-> data set, list of sequences of (input, target, importance or None)"""
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
    lens = dict(sup2=[1, 1], sup3=[1, 1, 1], seq=[2, 1], seq3=[1, 2, 1], one=[3], imp=[1, 1], impseq=[2, 1])[kind]
    seqs, k = [], salt
    for n in lens:
        s = []
        for _ in range(n):
            k += 1
            x = np.array([num(i, k, 0) for i in range(nin)])
            t = np.array([num(i, k, 2) for i in range(nout)])
            w = np.array([[1.0, 0.0, 2.5, 0.3][(k + i) % 4] for i in range(nout)]) if kind.startswith('imp') else None
            s.append((x, t, w))
        seqs.append(s)
    ds = (SupervisedDataSet if kind.startswith('sup') else ImportanceDataSet if kind.startswith('imp') else SequentialDataSet)(nin, nout)
    for s in seqs:
        if not kind.startswith('sup'):
            ds.newSequence()
        for x, t, w in s:
            ds.addSample(*((x, t) if w is None else (x, t, w)))
    return ds, seqs


class Model(object):
    def __init__(self, spec):
        self.spec = spec
        self.proto = R.values(spec)
        self.names = sorted(self.proto)
        self.memo = {}

    def flat(self, vals):
        return np.concatenate([vals[n] for n in self.names])

    def unflat(self, p):
        r, i = {}, 0
        for n in self.names:
            r[n] = p[i:i + len(self.proto[n])]
            i += len(self.proto[n])
        return r

    def loss(self, vals, seq):
        ys = R.Ref(self.spec, vals).run([s[0] for s in seq])
        return sum((0.5 * (1 if w is None else w) * (t - y) ** 2).sum() for y, (x, t, w) in zip(ys, seq))

    def weight(self, seqs):
        return sum((len(t) if w is None else w.sum()) for s in seqs for x, t, w in s)

    def grad(self, p, seq):
        """error and its descent direction"""
        k = (p.tobytes(), id(seq))
        if k not in self.memo:
            vals = self.unflat(p)
            g = []
            for path, n in paths(vals):
                g.append((path, [-np.imag(self.loss(plus(vals, path, i, 1j * H), seq)) / H for i in range(n)]))
            self.memo[k] = float(np.real(self.loss(vals, seq))), np.concatenate([np.array(v) for _, v in sorted(g)])
        return self.memo[k]

    def error(self, p, seqs):
        return sum(float(np.real(self.loss(self.unflat(p), s))) for s in seqs) / self.weight(seqs)


def epoch_plain(model, st, seqs, cfg, order):
    p, v, a = st
    lr, decay, mom, wd, batch = cfg
    e = 0.0
    acc = np.zeros(len(p))
    for k in order:
        err, g = model.grad(p, seqs[k])
        e += err
        if batch:
            acc = acc + g
        else:
            v = mom * v + a * (g - wd * p)
            a = a * decay
            p = p + v
    if batch:
        v = mom * v + a * (acc - wd * p)
        a = a * decay
        p = p + v
    return (p, v, a), e / model.weight(seqs)


def epoch_rprop(model, st, seqs, cfg, order):
    p, delta, last = st
    up, down, lo, hi, wd = cfg
    e, g = 0.0, np.zeros(len(p))
    for k in order:
        err, d = model.grad(p, seqs[k])
        e += err
        g = g + d
    g = g - wd * p
    p = p + np.sign(g) * delta
    s = last * g
    delta = np.clip(np.where(s > 0, delta * up, np.where(s < 0, delta * down, delta)), lo, hi)
    return (p, delta, np.where(s < 0, 0, g)), e / model.weight(seqs)


def run(ctx, key, which, kind, cfg, hist, rprop=False):
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    spec = spec_of(which)
    model = Model(spec)

    def body(ch):
        net, objs = R.build(spec)
        R.install(objs, model.proto)
        ds, seqs = data_of(kind, net.indim, net.outdim)
        other = data_of(kind, net.indim, net.outdim, 5)
        start = model.flat(model.proto)
        if rprop:
            up, down, lo, hi, wd = cfg
            tr = RPropMinusTrainer(net, dataset=ds, etaplus=up, etaminus=down, deltamin=lo, deltamax=hi, delta0=0.25, weightdecay=wd)
            states = [(start, np.zeros(len(start)) + 0.25, np.zeros(len(start)))]
            step = epoch_rprop
        else:
            lr, decay, mom, wd, batch = cfg
            tr = BackpropTrainer(net, ds, learningrate=lr, lrdecay=decay, momentum=mom, weightdecay=wd, batchlearning=batch)
            states = [(start, np.zeros(len(start)), lr)]
            step = epoch_plain
        salt = 0
        cur = ds, seqs
        for k, op in enumerate(hist):
            before = model.flat(R.read(objs, model.proto))
            h = dict(net=which, data=kind, cfg=cfg, ops=hist[:k + 1], choices=list(ch.taken))
            if op == 'train':
                rows = [np.array(cur[0][f]) for f in ('input', 'target')]
                with rng.control(ch, perms='all'):
                    got = tr.train()
                ctx.trans()
                p = model.flat(R.read(objs, model.proto))
                nxt = []
                # every epoch's order is one of all orders; batch and resilient steps do not depend on it
                idx = range(len(cur[1]))
                orders = [tuple(idx)] if rprop or cfg[4] is True else list(itertools.permutations(idx))
                cand = [step(model, st, cur[1], cfg, o) for st in states for o in orders]
                for st, e in cand:
                    if close(st[0], p, 1e-7) and close(e, got, 1e-8):
                        nxt.append((p,) + st[1:])
                if not ctx.check(nxt, key + ':epoch', 'weights or error after an epoch are those of no order of the sequences', got=[p, got], want=[(s[0], e) for s, e in cand[:2]], history=h):
                    return
                states = nxt
                ctx.check(all(np.array_equal(a, b) for a, b in zip(rows, [np.array(cur[0][f]) for f in ('input', 'target')])), key + ':data', 'training changed the data', history=h)
            elif op in ('test', 'testother', 'class'):
                target = other if op == 'testother' else cur
                d0 = model.flat(R.read(objs, model.proto, 'derivs'))
                if op == 'class':
                    out, targ = tr.testOnClassData(target[0], return_targets=True)
                    ys = [y for s in target[1] for y in R.Ref(spec, model.unflat(before)).run([x for x, t, w in s])]
                    ctx.check([int(a) for a in out] == [int(np.argmax(np.real(y))) for y in ys] and [int(a) for a in targ] == [int(np.argmax(t)) for s in target[1] for x, t, w in s], key + ':class', 'winner-takes-all outputs', got=[out, targ], history=h)
                else:
                    got = tr.testOnData(target[0]) if op == 'testother' else tr.testOnData()
                    ctx.check(close(got, model.error(before, target[1]), 1e-9), key + ':test', 'error on data', got=got, want=model.error(before, target[1]), history=h)
                ctx.trans()
                ctx.check(np.array_equal(before, model.flat(R.read(objs, model.proto))), key + ':test:weights', 'evaluating changed the weights', history=h)
                ctx.check(np.array_equal(d0, model.flat(R.read(objs, model.proto, 'derivs'))), key + ':test:derivs', 'evaluating changed the derivatives', history=h)
            elif op == 'poke':
                # somebody else changes the module: training goes on from there
                salt += 1
                v = R.values(spec, salt)
                R.install(objs, v)
                states = [(model.flat(v),) + st[1:] for st in states]
            elif op == 'stale':
                # leftovers of an unfinished pass must not matter
                net.activate(np.ones(net.indim))
                net.backActivate(np.ones(net.outdim))
            elif op == 'swap':
                cur, other = other, cur
                tr.setData(cur[0])
        ctx.outcome(tuple(np.round(states[0][0], 6)))
        ctx.trace()
    explore(body)
    ctx.state((which, kind, cfg, hist))


CFGS = [(lr, decay, mom, wd, batch) for lr in (0.1, 0.6) for decay in (1.0, 0.5) for mom in (0.0, 0.9) for wd in (0.0, 0.1) for batch in (False, True)]
DATA = dict(ff=['sup2', 'sup3', 'imp'], shared=['sup2', 'imp'], rec=['seq', 'seq3', 'one', 'impseq', 'sup2'], lstm=['seq', 'impseq'])


def configs(ctx, which, part, parts, deep):
    """every configuration, two epochs in a row (three when deep)"""
    todo = [(kind, cfg) for kind in DATA[which] for cfg in CFGS]
    for i, (kind, cfg) in enumerate(todo):
        if i % parts == part:
            n = 3 if deep and kind not in ('sup3', 'seq3') else 2
            run(ctx, 'plain', which, kind, cfg, ('train',) * n)
            if i % 7 == 0:
                ctx.sample((which, kind, cfg))


OPS = ['train', 'test', 'testother', 'class', 'poke', 'stale', 'swap']


def histories(ctx, which, kind, cfg, depth, first):
    for n in range(1, depth + 1):
        for h in itertools.product(OPS, repeat=n):
            if h[0] == first and 'train' in h or n == 1 and h[0] == first:
                run(ctx, 'history', which, kind, cfg, h)


def resilient(ctx, which, depth):
    for kind in DATA[which]:
        for cfg in [(1.2, 0.5, 1e-6, 5.0, 0.0), (2.0, 0.25, 0.1, 0.6, 0.3)]:
            run(ctx, 'rprop', which, kind, cfg, ('train',) * 6, True)
            for h in itertools.product(OPS, repeat=depth):
                if kind in ('sup2', 'seq', 'impseq') and 'train' in h:
                    run(ctx, 'rprop', which, kind, cfg, h, True)


def methods(ctx, part, parts):
    """trainEpochs and trainOnDataset are repeated epochs on the given data"""
    from pybrain.supervised.trainers import BackpropTrainer
    for which, kind in (('ff', 'sup2'), ('rec', 'one'), ('rec', 'seq')):
        spec = spec_of(which)
        model = Model(spec)
        for cfg in CFGS[part::parts]:
            for n in range(0, 4):
                for how in ('epochs', 'dataset'):
                    if not cfg[4] and n * len(data_of(kind, 1, 1)[1]) > 3 * 2:
                        continue
                    def body(ch):
                        net, objs = R.build(spec)
                        R.install(objs, model.proto)
                        ds, seqs = data_of(kind, net.indim, net.outdim)
                        tr = BackpropTrainer(net, ds if how == 'epochs' else None, learningrate=cfg[0], lrdecay=cfg[1], momentum=cfg[2], weightdecay=cfg[3], batchlearning=cfg[4])
                        with rng.control(ch, perms='all'):
                            if how == 'epochs':
                                tr.trainEpochs(n)
                            else:
                                tr.trainOnDataset(ds, n)
                        ctx.trans(n)
                        start = model.flat(model.proto)
                        sts = [(start, np.zeros(len(start)), cfg[0])]
                        for _ in range(n):
                            sts = [step[0] for st in sts for o in itertools.permutations(range(len(seqs))) for step in [epoch_plain(model, st, seqs, cfg, o)]]
                        p = model.flat(R.read(objs, model.proto))
                        ctx.check(any(close(s[0], p, 1e-7) for s in sts), 'methods:' + how, 'weights after several epochs', got=p, history=[which, kind, cfg, n, list(ch.taken)])
                        ctx.trace()
                    explore(body)
                    ctx.state((which, kind, cfg, n, how))


def refused(ctx):
    """data of other dimensions is refused, as is training on nothing"""
    from pybrain.supervised.trainers import BackpropTrainer
    from pybrain.datasets import SupervisedDataSet
    for a in (1, 2):
        for b in (1, 2, 3):
            net, objs = R.build(spec_of('ff'))
            ds = SupervisedDataSet(a, b)
            ds.addSample([0.5] * a, [0.5] * b)
            ctx.state((a, b))
            ctx.trans()
            try:
                BackpropTrainer(net, ds)
            except Exception:
                ctx.check((a, b) != (1, 2), 'refused', 'fitting data refused', history=[a, b])
            else:
                ctx.check((a, b) == (1, 2), 'refused', 'data of other dimensions accepted', history=[a, b])


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = []
    for w, parts in (('ff', 8), ('shared', 2), ('rec', 8), ('lstm', 6)):
        js += [('configs-%s-%d' % (w, i), configs, (w, i, parts, deep)) for i in range(parts)]
    for w, kind, cfg in (('ff', 'sup2', (0.6, 0.5, 0.9, 0.1, False)), ('rec', 'seq', (0.6, 0.5, 0.9, 0.1, False)), ('rec', 'impseq', (0.6, 0.5, 0.9, 0.1, True))):
        js += [('history-%s-%s-%s' % (w, kind, f), histories, (w, kind, cfg, 4 if deep else 3, f)) for f in OPS]
    js += [('rprop-' + w, resilient, (w, 4 if deep else 3)) for w in ('ff', 'rec', 'lstm')]
    js += [('methods-%d' % i, methods, (i, 5)) for i in range(5)] + [('refused', refused, ())]
    return js
