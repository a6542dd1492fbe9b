"""Every outcome of every random draw inside split, batch and fold construction on the real code: all data set sizes up to
the bound, all proportions / batch sizes / fold counts, all permutations of samples, batches and sequences. Each part is
compared row by row (tagged samples) with the original: the parts partition it, have the requested sizes, keep input and
target (and importance) of a sample together, keep sequences whole, and leave the original unchanged."""

import copy
import itertools
import numpy as np
from mc.choice import explore
from mc import rng
from pybrain.datasets import SupervisedDataSet, SequentialDataSet, ImportanceDataSet, SequenceClassificationDataSet, UnsupervisedDataSet, ClassificationDataSet
from pybrain.tools.validation import CrossValidator

ASSUMPTIONS = ['requested size of a part = floor(size * proportion), cross-validation folds differ by at most one sample',
               'real-valued draws do not occur in these functions; discrete draws are all explored']
PROPS = [0.0, 0.25, 1 / 3., 0.5, 0.75, 1.0]


def row(i):
    return [float(i), i + 0.25], [100.0 + i]


def pairs(ds, fields=('input', 'target')):
    cols = [[tuple(float(x) for x in np.ravel(r)) for r in ds[f]] for f in fields]
    if len(set(len(c) for c in cols)) != 1:
        return None
    return list(zip(*cols))


def contents(ds):
    return {f: [tuple(float(x) for x in np.ravel(r)) for r in ds[f]] for f in ds.getFieldNames()}


def supervised_split(ctx, n, kind):
    for p in PROPS:
        outs = set()
        for extra in (0, 1):        # with and without unused capacity
            def body(ch):
                if kind == 'class':
                    ds = ClassificationDataSet(2, 1, nb_classes=3)
                else:
                    ds = SupervisedDataSet(2, 1)
                if extra:
                    ds.setField('input', np.array([row(i)[0] for i in range(n)]).reshape(n, 2))
                    ds.setField('target', np.array([row(i)[1] for i in range(n)]).reshape(n, 1))
                else:
                    for i in range(n):
                        ds.addSample(*row(i))
                before = contents(ds)
                with rng.control(ch) as c:
                    l, r = ds.splitWithProportion(p)
                ctx.trans()
                a, b = pairs(l), pairs(r)
                key = 'split:%s:%d:%g' % (kind, n, p)
                if not ctx.check(a is not None and b is not None, key, 'input and target of a part have different lengths'):
                    return
                ctx.check(len(l) == int(n * p) and len(r) == n - int(n * p), key + ':size', 'sizes of the parts', got=(len(l), len(r)), n=n, proportion=p)
                want = sorted(pairs(ds))
                ctx.check(sorted(a + b) == want, key + ':part', 'the parts partition the samples', left=a, right=b)
                ctx.check(contents(ds) == before, key + ':orig', 'original changed')
                # writing to a part must not reach the original
                if len(l):
                    l['input'][0, 0] = -77.
                    ctx.check(contents(ds) == before, key + ':alias', 'part shares storage with the original')
                outs.add(tuple(sorted(a)))
                ctx.state((kind, n, p, tuple(a), tuple(b)))
                ctx.trace()
            explore(body)
        import math
        k = int(n * p)
        want = math.factorial(n) // math.factorial(k) // math.factorial(n - k)
        ctx.check(len(outs) == want, 'split:%s:%d:%g:reach' % (kind, n, p), 'every subset can be drawn', got=len(outs), want=want)


def seqs_of(ds):
    fields = list(ds.link)
    return [[tuple(tuple(float(x) for x in np.ravel(v)) for v in r) for r in zip(*ds.getSequence(i))]
            for i in range(ds.getNumSequences())]


def build_seq(cls, lens):
    ds = SequentialDataSet(2, 1) if cls == 'seq' else ImportanceDataSet(2, 1)
    t = 0
    for L in lens:
        ds.newSequence()
        for _ in range(L):
            r = row(t)
            if cls == 'imp':
                r = r + ([7. + t],)
            ds.addSample(*r)
            t += 1
    return ds


def sequential_split(ctx, cls, n):
    for lens in itertools.product((1, 2, 3), repeat=n):
        for p in PROPS:
            outs = set()

            def body(ch):
                ds = build_seq(cls, lens)
                before = contents(ds)
                orig = seqs_of(ds)
                with rng.control(ch) as c:
                    l, r = ds.splitWithProportion(p)
                ctx.trans()
                key = 'seqsplit:%s:%s:%g' % (cls, lens, p)
                a = [s for s in seqs_of(l) if s]
                b = [s for s in seqs_of(r) if s]
                k = int(n * p)
                ctx.check(len(a) == k and len(b) == n - k, key + ':size', 'number of sequences in the parts', got=(len(a), len(b)), want=(k, n - k))
                ctx.check(sorted(a + b) == sorted(orig), key + ':part', 'the parts hold exactly the original sequences', left=a, right=b, orig=orig)
                ctx.check(contents(ds) == before, key + ':orig', 'original changed')
                outs.add(repr(sorted(a)))
                ctx.state((cls, lens, p, repr(a), repr(b)))
                ctx.trace()
            explore(body)
            import math
            k = int(n * p)
            want = math.factorial(n) // math.factorial(k) // math.factorial(n - k)
            ctx.check(len(outs) == want, 'seqsplit:%s:%s:%g:reach' % (cls, lens, p), 'every choice of sequences can be drawn', got=len(outs), want=want)


def batches(ctx, maxlen):
    for n in range(0, maxlen + 1):
        for full in (0, 1):
            ds = UnsupervisedDataSet(2)
            rows = [(float(i), -1. * i) for i in range(n)]
            if full:
                ds.setField('sample', np.array(rows).reshape(n, 2))
            else:
                for r in rows:
                    ds.addSample(r)
            for b in range(1, maxlen + 2):
                got = [[tuple(x) for x in c] for c in ds.batches('sample', b)]
                want = [rows[i:i + b] for i in range(0, n, b)]
                ctx.trans()
                ctx.trace()
                ctx.state(('b', n, full, b))
                ctx.check(got == want, 'batches:%d:%d' % (n, b), 'consecutive batches', got=got, want=want)
                m = len(want)
                if m <= 4:
                    for perm in itertools.permutations(range(m)):
                        got = [[tuple(x) for x in c] for c in ds.batches('sample', b, list(perm))]
                        ctx.trans()
                        ctx.check(got == [want[i] for i in perm], 'batches-perm:%d:%d' % (n, b), 'batches in the order given', perm=perm, got=got)
                if m <= 5:
                    outs = set()

                    def body(ch):
                        with rng.control(ch) as c:
                            got = [[tuple(x) for x in q] for q in ds.randomBatches('sample', b)]
                        ctx.trans()
                        ctx.trace()
                        ctx.check(sorted(got) == sorted(want), 'random-batches:%d:%d' % (n, b), 'every batch exactly once', got=got, want=want)
                        outs.add(repr(got))
                    explore(body)
                    import math
                    ctx.check(len(outs) == math.factorial(m), 'random-batches:%d:%d:orders' % (n, b), 'every order can be drawn', got=len(outs))
                    ctx.state(('rb', n, full, b, len(outs)))
    ds = UnsupervisedDataSet(1)
    for i in range(3):
        ds.addSample([i])
    ctx.check(len(ds) == 3, 'batches:orig', 'original changed')


class Recorder(object):
    """stands in for a trainer: remembers what every clone was given"""

    def __init__(self, log):
        self.log = log
        self.module = ['m']

    def __deepcopy__(self, memo):
        c = Recorder(self.log)
        c.module = list(self.module)
        return c

    def setData(self, ds):
        self.ds = ds

    def train(self):
        self.log.append(('train', 1, pairs(self.ds)))
        self.module.append('trained')

    def trainEpochs(self, n):
        self.log.append(('train', n, pairs(self.ds)))
        self.module.append('trained')


def folds(ctx, n, k, epochs):
    calls = [0]

    def body(ch):
        ds = SupervisedDataSet(2, 1)
        for i in range(n):
            ds.addSample(*row(i))
        before = contents(ds)
        log = []
        tr = Recorder(log)

        def val(module, d):
            log.append(('val', list(module), pairs(d)))
            return float(sum(1 for x in log if x[0] == 'val')) ** 2
        kw = dict(max_epochs=epochs) if epochs else {}
        with rng.control(ch, perms='all' if n <= 5 else 'rot') as c:
            res = CrossValidator(tr, ds, n_folds=k, valfunc=val, **kw).validate()
        ctx.trans(k)
        ctx.trace()
        key = 'folds:%d:%d' % (n, k)
        everything = sorted(pairs(ds))
        ctx.check(contents(ds) == before, key + ':orig', 'original changed')
        ctx.check([x[0] for x in log] == ['train', 'val'] * k, key + ':calls', 'one training and one validation per fold', got=[x[0] for x in log])
        tests = []
        for t, v in zip(log[0::2], log[1::2]):
            ctx.check(t[2] is not None and v[2] is not None and sorted(t[2] + v[2]) == everything, key + ':part',
                      'training and test part of a fold partition the data', train=t[2], test=v[2])
            ctx.check(t[1] == (epochs or 1), key + ':epochs', 'epochs trained', got=t[1])
            ctx.check(v[1] == ['m', 'trained'], key + ':clone', 'each fold trains a fresh clone', got=v[1])
            ctx.check(len(v[2]) in (n // k, -(-n // k)), key + ':size', 'equal fold sizes', got=len(v[2]))
            tests += v[2]
        ctx.check(sorted(tests) == everything, key + ':cover', 'every sample is tested exactly once', got=tests)
        ctx.check(tr.module == ['m'], key + ':trainer', 'the given trainer is not trained')
        ctx.check(abs(res - sum(float(i) ** 2 for i in range(1, k + 1)) / k) < 1e-9, key + ':mean', 'result is the mean over folds', got=res)
        ctx.state((n, k, repr(log)))
    explore(body)


def stratified(ctx, nseq, tf, ef, trailing):
    for labels in itertools.product((0, 1), repeat=nseq):
        for lens in ([1] * nseq, [1 + i % 2 for i in range(nseq)]):
            def body(ch):
                ds = SequenceClassificationDataSet(2, 1, nb_classes=2)
                t = 0
                for L, c in zip(lens, labels):
                    ds.newSequence()
                    for _ in range(L):
                        ds.addSample(row(t)[0], [c])
                        t += 1
                if trailing:
                    ds.newSequence()
                feats = lambda d: [([tuple(x) for x in d.getSequence(i)[0]], [int(x) for x in np.ravel(d.getSequence(i)[1])]) for i in range(d.getNumSequences())]
                orig = [s for s in feats(ds) if s[0]]
                before = {f: v for f, v in contents(ds).items() if f != 'class'}
                with rng.control(ch) as c:
                    parts = ds.stratifiedSplit(tf, ef)
                ctx.trans()
                ctx.trace()
                key = 'strat:%s:%g:%g' % (labels, tf, ef)
                got = [[s for s in feats(d) if s[0]] for d in parts]
                ctx.check(sorted(sum(got, [])) == sorted(orig), key + ':part', 'the parts hold exactly the original sequences', got=got, orig=orig)
                after = {f: v for f, v in contents(ds).items() if f != 'class'}
                ctx.check(after == before, key + ':orig', 'original changed')
                for cl in (0, 1):
                    m = labels.count(cl)
                    want = [m - int(tf * m) - int(ef * m), int(tf * m), int(ef * m)][:len(parts)]
                    have = [sum(1 for s in g if s[1][-1] == cl) for g in got]
                    ctx.check(have == want, key + ':size', 'share of each class in each part', got=have, want=want, cls=cl)
                anyval = any(int(ef * labels.count(cl)) for cl in (0, 1))
                ctx.check(len(parts) == (3 if anyval else 2), key + ':parts', 'number of parts', got=len(parts))
                ctx.state((labels, tuple(lens), tf, ef, repr(got)))
            explore(body)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    for n in range(0, (8 if th else 7)):
        out.append(('supervised-%d' % n, supervised_split, (n, 'sup')))
    for n in (1, 3, 4):
        out.append(('class-%d' % n, supervised_split, (n, 'class')))
    for c in ('seq', 'imp'):
        for n in range(1, 6 if th else 5):
            out.append(('%s-%d' % (c, n), sequential_split, (c, n)))
    out.append(('batches', batches, (8 if th else 7,)))
    for n in range(3, 8 if th else 7):
        for k in range(2, n):
            out.append(('folds-%d-%d' % (n, k), folds, (n, k, 3 if k % 2 else None)))
    for n in range(1, 6 if th else 5):
        for tf, ef in ((0.5, 0), (0.25, 0.25), (0.15, 0), (1 / 3., 1 / 3.), (0.5, 0.5)):
            out.append(('stratified-%d-%.2f-%.2f' % (n, tf, ef), stratified, (n, tf, ef, n % 2 == 0)))
    return out
