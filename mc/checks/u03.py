"""Every output/target/importance array over small alphabets through the error measures; every division into sequences, every
output assignment and every module history before validation through module validation and sequence classification; every
permutation of the data through cross-validation with a recording trainer."""

import itertools
import numpy
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.tools.validation import Validator, ModuleValidator, CrossValidator, SequenceHelper, ClassificationHelper, testOnSequenceData as onSequences
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet
from pybrain.supervised.trainers import BackpropTrainer
from pybrain.datasets import ClassificationDataSet, SequenceClassificationDataSet
from pybrain.structure import FeedForwardNetwork, RecurrentNetwork, LinearLayer, LSTMLayer, FullConnection

ASSUMPTIONS = ['sums of squares of several columns may be returned per column', 'the sum of the importances is positive',
               'fewer folds than samples and at least two folds (the code asserts the former)', 'sequences are not empty',
               'the hit rate is defined for one-dimensional outputs']


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def refused(f, *a):
    try:
        r = f(*a)
    except (AssertionError, ValueError, TypeError, IndexError):
        return None
    return (r,)


# ------------------------------------------------------------------------------- measures

def measures(ctx, shape, alph, imps):
    n = int(numpy.prod(shape))
    for o in itertools.product(alph, repeat=n):
        for t in itertools.product(alph, repeat=n):
            ctx.state((o, t))
            out, tar = array(o).reshape(shape), array(t).reshape(shape)
            total = sum((a - b) ** 2 for a, b in zip(o, t))
            for a, b in ((out, tar), (out.tolist(), tar.tolist())):
                ctx.trans()
                ok, m = ctx.guard('mse-crash', Validator.MSE, a, b)
                if ok:
                    ctx.check(close(m, total / n), 'mse', 'not the mean squared error', out=o, target=t, got=float(m), want=total / n)
            ok, m = ctx.guard('ess-crash', Validator.ESS, out, tar)
            if ok:
                ctx.check(close(numpy.sum(m), total), 'ess', 'not the sum of squared errors', out=o, target=t, got=numpy.asarray(m).tolist(), want=total)
            if len(shape) == 1:
                for a, b in ((out, tar), (list(o), list(t))):
                    ok, m = ctx.guard('hit-crash', Validator.classificationPerformance, a, b)
                    if ok:
                        ctx.check(close(m, sum(x == y for x, y in zip(o, t)) / float(n)), 'hit', 'not the hit rate', out=o, target=t, got=m)
            for w in imps(n):
                ctx.trans()
                ok, m = ctx.guard('mse-imp-crash', Validator.MSE, out, tar, array(w).reshape(shape))
                if ok:
                    want = sum(i * (a - b) ** 2 for i, a, b in zip(w, o, t)) / float(sum(w))
                    ctx.check(close(m, want), 'mse-imp', 'not the weighted mean squared error', out=o, target=t, importance=w, got=float(m), want=want)
            ctx.check(tuple(out.flatten()) == o and tuple(tar.flatten()) == t, 'measure-argument', 'the arguments were changed')
    ctx.outcome(shape)


def malformed(ctx):
    shapes = [(1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 1, 1)]
    for a, b in itertools.product(shapes, repeat=2):
        ctx.state((a, b))
        ctx.trans()
        if a != b:
            r = refused(Validator.MSE, numpy.ones(a), numpy.zeros(b))
            ctx.check(r is None, 'mse-shape', 'arrays of different shapes are compared', a=a, b=b, got=str(r))
            r = refused(Validator.MSE, numpy.ones(a), numpy.zeros(a), numpy.ones(b))
            ctx.check(r is None, 'mse-imp-shape', 'an importance of another shape is accepted', a=a, b=b, got=str(r))
        if a[0] != b[0]:
            r = refused(Validator.classificationPerformance, numpy.ones(a), numpy.zeros(b))
            ctx.check(r is None, 'hit-shape', 'different numbers of outputs and targets are compared', a=a, b=b, got=str(r))


def one_of_many(ctx, top):
    for n in (1, 2, 3):
        for k in range(1, top + 1):
            for vals in itertools.product((0., .5, 1.), repeat=n * k):
                if n * k > 6:
                    break
                ctx.state(vals)
                ctx.trans()
                d = array(vals).reshape(n, k)
                ok, got = ctx.guard('classes-crash', ClassificationHelper.oneOfManyToClasses, d)
                if ok:
                    ctx.check(len(got) == n and all(d[i][g] == max(d[i]) for i, g in enumerate(got)), 'classes', 'not the index of the largest component', data=d.tolist(), got=list(got))


# ------------------------------------------------------------------------------- modules and sequences

class Memory(object):
    """a module whose output depends on everything since the last reset; table: input id -> output"""
    indim = 1

    def __init__(self, table, remember=True):
        self.table, self.remember = table, remember
        self.seen = []
        self.buf = numpy.zeros(len(table[0]))

    def reset(self):
        self.seen = []

    def activate(self, x):
        self.seen.append(float(x[0]))
        self.buf[:] = self.table[int(x[0])]
        if self.remember:
            self.buf += 10 * (len(self.seen) - 1)
        return self.buf.copy()


def divisions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        parts, size = [], 1
        for c in cuts:
            if c:
                parts.append(size)
                size = 1
            else:
                size += 1
        yield parts + [size]


def fill(ds, parts, targets, imps=None):
    i = 0
    for p in parts:
        ds.newSequence()
        for _ in range(p):
            if imps is None:
                ds.addSample([float(i)], targets[i])
            else:
                ds.addSample([float(i)], targets[i], imps[i])
            i += 1
    return ds


def helper(ctx, top):
    for n in range(1, top + 1):
        for parts in divisions(n):
            ctx.state(tuple(parts))
            ctx.trans()
            ds = fill(SequentialDataSet(1, 1), parts, [[0.]] * n)
            ends = [sum(parts[:k + 1]) - 1 for k in range(len(parts))]
            ok, got = ctx.guard('ends-crash', SequenceHelper.getSequenceEnds, ds)
            if ok:
                ctx.check([int(x) for x in got] == ends, 'ends', 'not the last indices of the sequences', parts=parts, got=list(got))
            ok, got = ctx.guard('starts-crash', SequenceHelper.getSequenceStarts, ds)
            if ok:
                ctx.check([int(x) for x in got] == [e + 1 - p for e, p in zip(ends, parts)], 'starts', 'not the first indices of the sequences', parts=parts, got=list(got))
            ok, got = ctx.guard('ends-importance-crash', SequenceHelper.getSequenceEndsImportance, ds)
            if ok:
                ctx.check([int(x) for x in got] == [int(i in ends) for i in range(n)], 'ends-importance', 'not 1 exactly at the last elements', parts=parts, got=list(got))


def sequential(ctx, n, alph):
    """module outputs reset at each sequence; MSE and importance-weighted MSE of them"""
    for parts in divisions(n):
        for vals in itertools.product(alph, repeat=n):
            tar = [[float((3 * i + 1) % 4)] for i in range(n)]
            pos = [k for p in parts for k in range(p)]
            outs = [v + 10 * k for v, k in zip(vals, pos)]
            for history in itertools.product((0, 1), repeat=2):
                ctx.state((tuple(parts), vals, history))
                ctx.trans()
                for kind in ('seq', 'imp', 'plain'):
                    m = Memory([[v] for v in vals], remember=kind != 'plain')
                    for h in history:
                        if h:
                            m.activate([0.])
                    imps = [[1. + (i * 2) % 3] for i in range(n)]
                    if kind == 'seq':
                        ds = fill(SequentialDataSet(1, 1), parts, tar)
                        want = sum((o - t[0]) ** 2 for o, t in zip(outs, tar)) / n
                    elif kind == 'imp':
                        ds = fill(ImportanceDataSet(1, 1), parts, tar, imps)
                        want = sum(i[0] * (o - t[0]) ** 2 for i, o, t in zip(imps, outs, tar)) / sum(i[0] for i in imps)
                    else:
                        ds = SupervisedDataSet(1, 1)
                        for i in range(n):
                            ds.addSample([float(i)], tar[i])
                        want = sum((v - t[0]) ** 2 for v, t in zip(vals, tar)) / n
                    ok, got = ctx.guard('module-crash', ModuleValidator.MSE, m, ds)
                    if ok:
                        ctx.check(close(got, want), 'module-mse', 'not the error of the fresh module on every sequence', kind=kind, parts=parts, vals=vals, history=history, got=float(got), want=want)
                    ok, out = ctx.guard('module-crash', ModuleValidator.calculateModuleOutput, m, ds)
                    if ok and kind == 'seq':
                        ctx.check([float(x) for x in numpy.asarray(out).flatten()] == outs, 'module-output', 'not the outputs of the fresh module', parts=parts, got=numpy.asarray(out).tolist(), want=outs)
                    box = []

                    def val(o, t, i=None):
                        box.append((numpy.asarray(o).flatten().tolist(), numpy.asarray(t).flatten().tolist(), None if i is None else numpy.asarray(i).flatten().tolist()))
                        return 7.
                    ok, got = ctx.guard('module-crash', ModuleValidator.validate, val, m, ds)
                    if ok:
                        ctx.check(got == 7. and box == [([float(v) for v in vals] if kind == 'plain' else outs, [t[0] for t in tar], [i[0] for i in imps] if kind == 'imp' else None)],
                                  'module-validate', 'the measure does not receive outputs, targets (and importances)', kind=kind, got=box)
                    ctx.check(len(ds) == n and [float(x) for x in ds['target'].flatten()] == [t[0] for t in tar], 'module-dataset', 'the dataset was changed', kind=kind)
    ctx.outcome(n)


def hits(ctx, n):
    """hit rate of a module on unsequenced data"""
    for vals in itertools.product((0., 1., 2.), repeat=n):
        for tar in itertools.product((0., 1.), repeat=n):
            ctx.state((vals, tar))
            ctx.trans()
            ds = SupervisedDataSet(1, 1)
            for i in range(n):
                ds.addSample([float(i)], [tar[i]])
            ok, got = ctx.guard('module-hit-crash', ModuleValidator.classificationPerformance, Memory([[v] for v in vals], False), ds)
            if ok:
                ctx.check(close(got, sum(v == t for v, t in zip(vals, tar)) / float(n)), 'module-hit', 'not the hit rate of the module', vals=vals, target=tar, got=float(got))


OUTS = [(1., 0.), (.4, .6), (0., .3)]


def classified(ctx, n, outs):
    for parts in divisions(n):
        for idx in itertools.product(range(len(outs)), repeat=n):
            for classes in itertools.product((0, 1), repeat=len(parts)):
                ctx.state((tuple(parts), idx, classes))
                ctx.trans()
                tar = [[float(k == c) for k in range(len(outs[0]))] for p, c in zip(parts, classes) for _ in range(p)]
                ds = fill(SequentialDataSet(1, len(outs[0])), parts, tar)
                m = Memory([outs[i] for i in idx], remember=False)
                m.activate([0.])
                ok, got = ctx.guard('sequence-crash', onSequences, m, ds)
                if not ok:
                    return
                at, right = 0, 0
                for p, c in zip(parts, classes):
                    s = [sum(outs[i][k] for i in idx[at:at + p]) for k in range(len(outs[0]))]
                    if sorted(s)[-1] - sorted(s)[-2] < 1e-9:
                        right = None
                        break
                    right += s.index(max(s)) == c
                    at += p
                if right is not None:
                    ctx.check(close(got, right / float(len(parts))), 'sequence', 'not the fraction of rightly classified sequences', parts=parts, outs=idx, classes=classes,
                              got=float(got), want=right / float(len(parts)))
    ctx.outcome(n)


def networks(ctx, n):
    """real networks with memory: whatever they saw before, validation equals that of a fresh copy"""
    def lstm():
        net = RecurrentNetwork('v')
        i, h, o = LinearLayer(1, name='i'), LSTMLayer(2, name='h'), LinearLayer(1, name='o')
        net.addInputModule(i)
        net.addModule(h)
        net.addOutputModule(o)
        net.addConnection(FullConnection(i, h, name='ih'))
        net.addConnection(FullConnection(h, o, name='ho'))
        net.addRecurrentConnection(FullConnection(h, h, name='hh'))
        net.sortModules()
        net.params[:] = [((7 * k) % 11 - 5) / 6. for k in range(net.paramdim)]
        return net

    def feed():
        net = FeedForwardNetwork('f')
        i, o = LinearLayer(1, name='i'), LinearLayer(1, name='o')
        net.addInputModule(i)
        net.addOutputModule(o)
        net.addConnection(FullConnection(i, o, name='io'))
        net.sortModules()
        net.params[:] = .7
        return net
    for build in (lstm, feed):
        for parts in divisions(n):
            tar = [[.1 * i] for i in range(n)]
            ds = fill(SequentialDataSet(1, 1), parts, tar)
            want = 0.
            for s, p in enumerate(parts):
                net = build()
                at = sum(parts[:s])
                for k in range(p):
                    want += (net.activate([float(at + k)])[0] - tar[at + k][0]) ** 2
            want /= n
            for hist in itertools.product((None, 0., 2., 'reset'), repeat=2):
                ctx.state((build.__name__, tuple(parts), hist))
                ctx.trans()
                net = build()
                for h in hist:
                    if h == 'reset':
                        net.reset()
                    elif h is not None:
                        net.activate([h])
                for again in range(2):
                    ok, got = ctx.guard('network-crash', ModuleValidator.MSE, net, ds)
                    if ok:
                        ctx.check(close(got, want), 'network', 'not the error of the fresh network', net=build.__name__, parts=parts, history=hist, again=again, got=float(got), want=want)
                params = net.params.copy()
                ctx.check((params == build().params).all(), 'network-params', 'validation changed the parameters', net=build.__name__)
    ctx.outcome(n)


# ------------------------------------------------------------------------------- cross-validation

class Recorder(object):
    log = []

    def __init__(self, tag):
        self.module = [tag]
        self.state = 0

    def setData(self, ds):
        Recorder.log.append(('data', self.state, tuple((float(a), float(b)) for a, b in zip(ds['input'].flatten(), ds['target'].flatten()))))
        self.module.append(len(Recorder.log))

    def train(self):
        self.state += 1
        Recorder.log.append(('train', None))

    def trainEpochs(self, n):
        self.state += 1
        Recorder.log.append(('train', n))


def cross(ctx, n, folds, epochs, perms):
    ds = SupervisedDataSet(1, 1)
    for i in range(n):
        ds.addSample([float(i)], [10. + i])
    vals = [2., 3., 5., 7., 11., 13.]

    def run(ch):
        Recorder.log = []
        tr = Recorder('m')
        tests = []

        def val(module, d):
            tests.append((list(module), tuple((float(a), float(b)) for a, b in zip(d['input'].flatten(), d['target'].flatten()))))
            return vals[len(tests) - 1]
        kw = dict(max_epochs=epochs) if epochs else {}
        with rng.control(ch, perms=perms):
            ok, got = ctx.guard('cross-crash', lambda: CrossValidator(tr, ds, folds, valfunc=val, **kw).validate())
        if not ok:
            return
        ctx.state(tuple(tests[0][1]))
        everything = [(float(i), 10. + i) for i in range(n)]
        datas = [l for l in Recorder.log if l[0] == 'data']
        ctx.check(len(tests) == folds == len(datas), 'cross-folds', 'not one training and one test per fold', folds=folds, got=[len(datas), len(tests)])
        ctx.check(sorted(p for t in tests for p in t[1]) == everything, 'cross-once', 'not every sample is tested exactly once', got=[t[1] for t in tests])
        sizes = [len(t[1]) for t in tests]
        ctx.check(max(sizes) - min(sizes) <= 1, 'cross-equal', 'the folds are not of equal size', got=sizes)
        for d, t in zip(datas, tests):
            ctx.check(sorted(d[2] + t[1]) == everything, 'cross-complement', 'training and test data are not complementary', train=d[2], test=t[1])
            ctx.check(d[1] == 0, 'cross-fresh', 'a fold starts from an already trained trainer')
            ctx.check(t[0][0] == 'm' and len(t[0]) == 2, 'cross-module', 'the tested module is not the one trained on this fold', got=t[0])
        ctx.check([l[1] for l in Recorder.log if l[0] == 'train'] == [epochs] * folds, 'cross-epochs', 'not trained once per fold for the given epochs', got=Recorder.log)
        ctx.check(tr.state == 0 and tr.module == ['m'], 'cross-original', 'the given trainer was changed')
        ctx.check(close(got, sum(vals[:folds]) / folds), 'cross-mean', 'not the mean over the folds', got=got)
        ctx.check(len(ds) == n and [(float(a), float(b)) for a, b in zip(ds['input'].flatten(), ds['target'].flatten())] == everything, 'cross-dataset', 'the dataset was changed')
    ctx.trans(explore(run).runs)
    ctx.outcome((n, folds))


def trainer_tests(ctx, n):
    """BackpropTrainer.testOnData / testOnClassData against their definitions"""
    for vals in itertools.product((-1., 0., 2.), repeat=n):
        ds = SupervisedDataSet(1, 1)
        for i, v in enumerate(vals):
            ds.addSample([float(i)], [v])
        net = FeedForwardNetwork('f')
        a, b = LinearLayer(1, name='a'), LinearLayer(1, name='b')
        net.addInputModule(a)
        net.addOutputModule(b)
        net.addConnection(FullConnection(a, b, name='ab'))
        net.sortModules()
        for w in (-1., .5):
            net.params[:] = w
            ctx.state((vals, w))
            ctx.trans()
            t = BackpropTrainer(net)
            ok, got = ctx.guard('test-crash', t.testOnData, ds)
            if ok:
                want = sum(.5 * (w * i - v) ** 2 for i, v in enumerate(vals)) / n
                ctx.check(close(got, want), 'test-on-data', 'not the average error', vals=vals, w=w, got=float(got), want=want)
    for classes in itertools.product((0, 1, 2), repeat=n):
        for weights in itertools.product((-1., 0., 1.), repeat=3):
            ctx.state((classes, weights))
            ctx.trans()
            net = FeedForwardNetwork('c')
            a, b = LinearLayer(1, name='a'), LinearLayer(3, name='b')
            net.addInputModule(a)
            net.addOutputModule(b)
            net.addConnection(FullConnection(a, b, name='ab'))
            net.sortModules()
            net.params[:] = weights
            for seq in (False, True):
                ds = ClassificationDataSet(1, 1, nb_classes=3) if not seq else SequenceClassificationDataSet(1, 1, nb_classes=3)
                for i, c in enumerate(classes):
                    if seq:
                        ds.newSequence()
                    ds.addSample([i - 1.], [c])
                ds._convertToOneOfMany()
                t = BackpropTrainer(net)
                ok, got = ctx.guard('class-test-crash', t.testOnClassData, ds, return_targets=True)
                if not ok:
                    continue
                outs, targets = got
                want = [int(numpy.argmax([w * (i - 1.) for w in weights])) for i in range(n)]
                ctx.check([int(x) for x in outs] == want and [int(x) for x in targets] == list(classes), 'test-on-classes', 'not the winning classes and the target classes',
                          classes=classes, weights=weights, sequences=seq, got=[list(map(int, outs)), list(map(int, targets))], want=want)
    ctx.outcome(n)


def jobs(tier, seed):
    th = tier == 'thorough'
    small = lambda n: [w for w in itertools.product((0., 1., 2.), repeat=n) if sum(w)] if n <= 2 else [tuple(1. + (i + k) % 3 for i in range(n)) for k in range(3)]
    out = [('measures-%s' % 'x'.join(map(str, s)), measures, (s, al, small)) for s, al in
           [((1,), (-1., 0., 2.)), ((2,), (-1., 0., 2.)), ((3,), (-1., 0., 2.)), ((1, 2), (-1., 0., 2.)), ((2, 1), (-1., 0., 2.)), ((2, 2), (0., 1.5)), ((2, 3), (0., 1.))]]
    if th:
        out += [('measures-4', measures, ((4,), (-1., 0., 2.), small)), ('measures-4x', measures, ((2, 2), (-1., 0., 2.), small))]
    out += [('malformed', malformed, ()), ('one-of-many', one_of_many, (4,)), ('helper', helper, (10 if th else 8,))]
    for n in range(1, (6 if th else 5)):
        out.append(('sequential-%d' % n, sequential, (n, (-1., 0., 2.) if n < 4 else (0., 2.))))
        out.append(('networks-%d' % n, networks, (n,)))
        out.append(('hits-%d' % n, hits, (n,)))
        out.append(('classified-%d' % n, classified, (n, OUTS)))
    for n in range(3, 7 if th else 6):
        for folds in range(2, n):
            for epochs in (None, 3):
                if n < 6 or epochs is None:
                    out.append(('cross-%d-%d-%s' % (n, folds, epochs), cross, (n, folds, epochs, 'all')))
    for n in range(1, 4):
        out.append(('trainer-%d' % n, trainer_tests, (n,)))
    return out
