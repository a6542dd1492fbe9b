"""trainUntilConvergence on the real trainer and the real error measurement, with the training step replaced by one that moves the single weight of a network to a value chosen from a menu:
every sequence of validation errors up to the depth bound is thereby explored, for every epoch limit, window and precision, with the stopping epoch, the reported errors, the restored weights and the number of epochs
compared with an independent account. Every random split of small data sets (independent and sequential, every proportion) is explored with real training, and the parts it worked on are compared with the data given.
Real runs are followed step by step: what it restored must be the best weights it measured, and training must continue from them."""

import itertools
import numpy as np
from mc.choice import explore
from mc import rng
from mc.canon import close

ASSUMPTIONS = ['the initial weights do not count as a candidate: one epoch is always trained, as documented in the code', 'two validation errors are never closer than the menu of weights makes them']


def unit_net(w=None, recurrent=False):
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, FullConnection
    n = RecurrentNetwork() if recurrent else FeedForwardNetwork()
    a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
    n.addInputModule(a)
    n.addOutputModule(b)
    n.addConnection(FullConnection(a, b))
    n.sortModules()
    if w is not None:
        n.params[:] = w
    return n


def pair(k, kind='sup'):
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    ds = SupervisedDataSet(1, 1) if kind == 'sup' else SequentialDataSet(1, 1)
    for i in range(k):
        ds.addSample([1.0], [0.0])
    return ds




def trainer(ch, menu, log, net, ds, limit):
    from pybrain.supervised.trainers import BackpropTrainer

    class T(BackpropTrainer):
        def train(self):
            if len(log) >= limit:
                ch.horizon = 0      # cut: neither rule fired within the bound
            w = menu[ch.pick(len(menu))]
            self.module.params[:] = w
            log.append(w)
            return 100.0 + len(log)
    return T(net, ds)


def verr(w):
    return 0.5 * w * w


def stop_rule(errs, n, digits):
    """the last n errors all exceed the n before them, or do not differ any more"""
    if len(errs) < 2 * n:
        return False
    new, old = errs[-n:], errs[-2 * n:-n]
    if min(new) > max(old):
        return True
    return len(set(round(e, digits) for e in new)) == 1


def scripted(ctx, menu, n, maxe, digits, limit):
    def body(ch):
        net = unit_net(menu[-1])
        tra, val, orig = pair(2), pair(1), pair(4)
        log = []
        tr = trainer(ch, menu, log, net, orig, limit)
        kw = dict(trainingData=tra, validationData=val, continueEpochs=n, convergence_threshold=digits)
        if maxe is not None:
            kw['maxEpochs'] = maxe
        got = tr.trainUntilConvergence(**kw)
        ctx.trans(len(log))
        ctx.state((n, maxe, digits, tuple(log)))
        h = dict(window=n, maxEpochs=maxe, digits=digits, weights=log)
        errs = [verr(menu[-1])] + [verr(w) for w in log]
        # the epoch at which it has to stop
        want = None
        for k in range(1, len(log) + 1):
            if (maxe is not None and k >= maxe) or stop_rule(errs[:k + 1], n, digits):
                want = k
                break
        if maxe is not None:
            ctx.check(len(log) <= max(maxe, 1), 'limit', 'more epochs than the limit', got=len(log), want=maxe, history=h)
        ctx.check(want == len(log), 'stop', 'stopped after another epoch than its rules say', got=len(log), want=want, history=h)
        best = min(range(1, len(log) + 1), key=lambda k: errs[k])
        ctx.check(close(net.params[0], log[best - 1]), 'weights', 'the weights left are not those of the lowest validation error', got=net.params, want=log[best - 1], history=h)
        te, ve = got
        ctx.check(list(te) == [101.0 + k for k in range(best)], 'reported:training', 'reported training errors are not those measured up to the best epoch', got=te, want=best, history=h)
        ctx.check(close(list(ve), errs[:best + 1]), 'reported:validation', 'reported validation errors are not those measured up to the best epoch', got=ve, want=errs[:best + 1], history=h)
        ctx.check(list(tr.validationErrors)[:len(errs)] == errs[:len(tr.validationErrors)], 'recorded', 'recorded validation errors', got=tr.validationErrors, want=errs, history=h)
        ctx.check(tr.ds is orig, 'dataset', 'the trainer keeps another data set afterwards', history=h)
        ctx.check(len(tra) == 2 and len(val) == 1 and len(orig) == 4, 'data', 'data sets were changed', history=h)
        ctx.trace()
        ctx.outcome((len(log), best))
    r = explore(body)
    ctx.note('cut', r.cut)


# ------------------------------------------------------------------ splits with real training
def rows(ds):
    return sorted((round(float(a[0]), 6), round(float(b[0]), 6)) for a, b in zip(ds['input'], ds['target']))


def splits(ctx, kind, sizes, props):
    from pybrain.supervised.trainers import BackpropTrainer
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    for lens in sizes:
        for prop in props:
            def body(ch):
                net = unit_net(0.4, kind == 'seq')
                ds = SupervisedDataSet(1, 1) if kind == 'sup' else SequentialDataSet(1, 1)
                k = 0
                for n in lens:
                    if kind == 'seq':
                        ds.newSequence()
                    for _ in range(n):
                        ds.addSample([k + 1.0], [10.0 * k])
                        k += 1
                used, tested = [], []

                class T(BackpropTrainer):
                    def train(self):
                        used.append(rows(self.ds))
                        with rng.control(ch, perms='id'):
                            return BackpropTrainer.train(self)

                    def testOnData(self, dataset=None, *a, **kw):
                        tested.append(rows(self.ds if dataset is None else dataset))
                        return BackpropTrainer.testOnData(self, dataset, *a, **kw)
                tr = T(net, ds, learningrate=0.001)
                h = dict(kind=kind, lens=lens, proportion=prop, choices=None)
                allrows = rows(ds)
                try:
                    with rng.control(ch, perms='all'):
                        tr.trainUntilConvergence(maxEpochs=2, validationProportion=prop)
                except ValueError:
                    h['choices'] = list(ch.taken)
                    n = len(lens)
                    ctx.check(int(n * (1 - prop)) in (0, n), 'split:refused', 'data that can be split was refused', history=h)
                    ctx.check(rows(ds) == allrows, 'split:original', 'the data given was changed', history=h)
                    return
                h['choices'] = list(ch.taken)
                ctx.trans(len(used) + len(tested))
                ctx.check(all(u == used[0] for u in used) and all(t == tested[0] for t in tested), 'split:stable', 'the parts changed between epochs', history=h)
                ctx.check(sorted(used[0] + tested[0]) == allrows, 'split:cover', 'training and validation part together are not the data given, each sample once', got=[used[0], tested[0]], want=allrows, history=h)
                ctx.check(used[0] and tested[0], 'split:empty', 'an empty part', history=h)
                ctx.check(tr.ds is ds and rows(ds) == allrows, 'split:original', 'the data given was changed', history=h)
                if kind == 'seq':
                    # sequences stay whole
                    blocks, i = [], 0
                    for n in lens:
                        blocks.append(set(allrows[i:i + n]))
                        i += n
                    ctx.check(all(b <= set(used[0]) or not b & set(used[0]) for b in blocks), 'split:cut', 'a sequence was cut', got=used[0], history=h)
                want = int(len(lens) * (1 - prop))
                if kind == 'sup':
                    ctx.check(len(used[0]) == want, 'split:size', 'size of the training part', got=len(used[0]), want=want, history=h)
                ctx.state((kind, lens, prop, tuple(used[0])))
                ctx.trace()
            explore(body)


# ------------------------------------------------------------------ real runs
def real(ctx, lrs, starts):
    from pybrain.supervised.trainers import BackpropTrainer, RPropMinusTrainer
    from pybrain.datasets import SupervisedDataSet
    for cls in (BackpropTrainer, RPropMinusTrainer):
        for lr in lrs:
            for s in starts:
                for mom in (0.0, 0.9):
                    for n, maxe in itertools.product((1, 2, 3), (None, 1, 2, 5, 9)):
                        net = unit_net(s)
                        tra, val = SupervisedDataSet(1, 1), SupervisedDataSet(1, 1)
                        tra.addSample([1.0], [1.0])
                        val.addSample([1.0], [0.8])
                        seen = []

                        class T(cls):
                            def train(self):
                                e = cls.train(self)
                                seen.append((e, float(self.module.params[0])))
                                return e
                        tr = T(net, dataset=tra, learningrate=lr, momentum=mom) if cls is BackpropTrainer else T(net, dataset=tra, delta0=lr)
                        te, ve = tr.trainUntilConvergence(trainingData=tra, validationData=val, continueEpochs=n, maxEpochs=maxe if maxe is not None else 40)
                        h = dict(trainer=cls.__name__, lr=lr, start=s, momentum=mom, window=n, maxEpochs=maxe)
                        errs = [0.5 * (s - 0.8) ** 2] + [0.5 * (w - 0.8) ** 2 for e, w in seen]
                        best = min(range(1, len(errs)), key=lambda k: errs[k])
                        ctx.trans(len(seen))
                        ctx.check(close(net.params[0], seen[best - 1][1]), 'real:weights', 'weights left', got=net.params, want=seen[best - 1], history=h)
                        ctx.check(close(list(ve), errs[:best + 1], 1e-9) and close(list(te), [e for e, w in seen[:best]], 1e-9), 'real:reported', 'errors reported', got=[te, ve], want=errs, history=h)
                        ctx.check(close(tr.testOnData(val), errs[best], 1e-9), 'real:error', 'validation error of the weights left', history=h)
                        ctx.check(len(seen) <= (maxe or 40), 'real:limit', 'epochs', got=len(seen), history=h)
                        # and goes on from there
                        w = float(net.params[0])
                        if cls is BackpropTrainer and not mom:
                            tr.train()
                            ctx.check(close(net.params[0], w + lr * (1.0 - w), 1e-9), 'real:continue', 'training does not continue from the weights restored', got=net.params, want=w + lr * (1.0 - w), history=h)
                        ctx.state((cls.__name__, lr, s, mom, n, maxe))
                        ctx.trace()


def broken(ctx):
    """a training that produces no numbers is reported"""
    for where in range(1, 4):
        for nan in (float('nan'),):
            net = unit_net(1.0)
            from pybrain.supervised.trainers import BackpropTrainer
            count = [0]

            class T(BackpropTrainer):
                def train(self):
                    count[0] += 1
                    self.module.params[:] = nan if count[0] == where else 1.0 / count[0]
                    return 0.1
            tr = T(net, pair(2))
            ctx.state(where)
            ctx.trans()
            try:
                tr.trainUntilConvergence(trainingData=pair(1), validationData=pair(1), maxEpochs=5, continueEpochs=5)
            except Exception:
                ctx.check(count[0] == where, 'nan', 'stopped at another epoch', history=where)
            else:
                ctx.fail('nan', 'training that produced NaN went unnoticed', history=where)


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = []
    d = 9 if deep else 7
    for n in (1, 2, 3, 4):
        for maxe in (None, 0, 1, 2, 3, 5, d):
            js.append(('scripted-%d-%s' % (n, maxe), scripted, ([1.0, 2.0, 3.0], n, maxe, 10, d)))
    for n in (1, 2):
        for maxe in (None, 4):
            # differences that only count at a finer precision
            js.append(('digits-%d-%s' % (n, maxe), scripted, ([1.0, 1.001, 3.0], n, maxe, 1, d)))
    js.append(('long-window', scripted, ([1.0, 2.0], 5, None, 10, 12 if deep else 11)))
    js += [('split-sup', splits, ('sup', [(1,) * n for n in (1, 2, 3, 4) + ((5,) if deep else ())], (0.25, 0.5, 0.1, 0.75, 0.9, 0.0, 1.0))),
           ('split-seq', splits, ('seq', [(1,), (2, 1), (1, 2, 1), (2, 2, 1), (1, 1, 1, 2)], (0.25, 0.5, 0.34, 0.75)))]
    js += [('real', real, ((0.1, 0.5, 1.5), (-1.0, 0.2, 3.0))), ('broken', broken, ())]
    return js
