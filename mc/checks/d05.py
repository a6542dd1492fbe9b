"""Lock-step exploration of class data sets against a plain list of labelled samples. Every label vector up to the bound,
declared and implicit class counts, array and incremental construction; every history up to the depth bound of adding
samples, converting to one-of-many (several bounds) and back, statistics, removal and clearing, with labels, targets,
class field, histogram and names compared in every reached state; in each state splitting by every class, casting to
regression, adding two sets. Every tuple of sequence lengths x window size for the windowed form."""

import contextlib
import io
import itertools
import numpy as np
from mc.canon import snap
from mc import history
from pybrain.datasets import ClassificationDataSet, SequenceClassificationDataSet, SequentialDataSet, SupervisedDataSet
from pybrain.tools.datasettools import convertSequenceToTimeWindows
from pybrain.tools.validation import ClassificationHelper

ASSUMPTIONS = ['classes are numbered 0..n-1 as documented; the class count is declared or all labels are present when it is first computed',
               'one-of-many rows are not appended by hand (documented as out of sync)',
               'the target field is not overwritten with other labels of the same length']
BOUNDS = [(0, 1), (-1, 1), (0.1, 0.9), (0, 0.75)]


def feat(i):
    return (float(i), i + 0.5)


def ints(a):
    return [int(x) for x in np.ravel(a)]


def rows(a):
    return [tuple(float(x) for x in np.ravel(r)) for r in a]


def onehot(labels, k, b):
    return [tuple(float(b[1]) if j == c else float(b[0]) for j in range(k)) for c in labels]


def look(ctx, key, ds, labels, feats, k, bounds, hist, names=None):
    ctx.check(rows(ds['input']) == feats, key + ':input', 'inputs', got=rows(ds['input']), want=feats, history=hist)
    if bounds is None:
        ctx.check(ds.outdim == 1 and ints(ds['target']) == labels, key + ':target', 'labels as targets', got=rows(ds['target']), want=labels, history=hist)
        ctx.check(all(float(x) == int(x) for x in np.ravel(ds['target'])), key + ':int', 'labels are whole numbers', history=hist)
    else:
        want = onehot(labels, k, bounds)
        ctx.check(rows(ds['target']) == want and ds.outdim == k, key + ':1ofn', 'one-of-many targets', got=rows(ds['target']), want=want, history=hist)
        if labels:
            got = ints(ClassificationHelper.oneOfManyToClasses(ds['target']))
            ctx.check(got == labels, key + ':decode', 'decoded targets', got=got, want=labels, history=hist)
    h = ds.calculateStatistics()
    want = {c: labels.count(c) for c in range(k)}
    ctx.check(ds.nClasses == k, key + ':nclasses', 'number of classes', got=ds.nClasses, want=k, history=hist)
    ctx.check(dict(h) == want and dict(ds.classHist) == want, key + ':hist', 'class histogram', got=h, want=want, history=hist)
    ctx.check(ints(ds['class']) == labels, key + ':class', 'class field', got=ints(ds['class']), want=labels, history=hist)
    if names:
        ctx.check([ds.getClass(i) for i in range(len(names))] == list(names), key + ':names', 'class names', history=hist)


def static(ctx, n):
    """construction x conversions x splits for every label vector"""
    for labels in itertools.product((0, 1, 2), repeat=n):
        labels = list(labels)
        feats = [feat(i) for i in range(n)]
        contiguous = sorted(set(labels)) == list(range(len(set(labels))))
        for how in ('array', 'add'):
            for nb in (3, 4, 0):
                if nb == 0 and (not contiguous or n == 0 or len(set(labels)) < 2):
                    continue
                if n == 0 and how == 'array':
                    continue
                k = nb or len(set(labels))
                names = ['n%d' % i for i in range(k)]

                def make():
                    if how == 'array':
                        return ClassificationDataSet(np.array(feats), np.array(labels).reshape(n, 1), nb_classes=nb, class_labels=names)
                    ds = ClassificationDataSet(2, 1, nb_classes=nb, class_labels=names)
                    for f, c in zip(feats, labels):
                        ds.addSample(f, [c])
                    return ds
                hist = [how, nb, labels]
                key = 'static:%s:%d' % (how, nb)
                look(ctx, key, make(), labels, feats, k, None, hist, names)
                ctx.state((how, nb, tuple(labels)))
                for b in BOUNDS:
                    ds = make()
                    ds._convertToOneOfMany(bounds=b)
                    ctx.trans()
                    look(ctx, key + ':to:%s' % (b,), ds, labels, feats, k, b, hist, names)
                    ds._convertToOneOfMany(bounds=(5, 6))
                    look(ctx, key + ':again:%s' % (b,), ds, labels, feats, k, b, hist, names)
                    for c in range(3):
                        split(ctx, key + ':1ofn', ds, c, labels, feats, k, b, hist)
                    ds._convertToClassNb()
                    look(ctx, key + ':back:%s' % (b,), ds, labels, feats, k, None, hist, names)
                    ctx.trace()
                ds = make()
                for c in range(3):
                    split(ctx, key, ds, c, labels, feats, k, None, hist)
                values = np.array([10., -2.5, 7., 1.])
                reg = ds.castToRegression(values)
                ctx.trans()
                ctx.check(rows(reg['target']) == [(values[c],) for c in labels] and rows(reg['input']) == feats and len(reg) == n,
                          key + ':reg', 'regression targets are the values of the classes', got=rows(reg['target']), history=hist)
                look(ctx, key + ':after-reg', ds, labels, feats, k, None, hist, names)
                if nb and n:
                    a, b = make(), make()
                    s = a + b
                    look(ctx, key + ':sum', s, labels + labels, feats + feats, k, None, hist, names)
                    look(ctx, key + ':summand', a, labels, feats, k, None, hist, names)
                    look(ctx, key + ':summand2', b, labels, feats, k, None, hist, names)
                    s2 = a + ClassificationDataSet(2, 1, nb_classes=nb)
                    look(ctx, key + ':plus-empty', s2, labels, feats, k, None, hist, names)


def split(ctx, key, ds, c, labels, feats, k, b, hist):
    l, r = ds.splitByClass(c)
    ctx.trans()
    sel = [i for i, x in enumerate(labels) if x == c]
    rest = [i for i, x in enumerate(labels) if x != c]
    for nm, d, idx in (('left', l, sel), ('right', r, rest)):
        look(ctx, key + ':split:' + nm, d, [labels[i] for i in idx], [feats[i] for i in idx], k, b, hist + ['split by %d' % c])
        ctx.check(len(d) == len(idx), key + ':split:len', 'size of a part', got=len(d), want=len(idx), history=hist)
    look(ctx, key + ':split:orig', ds, labels, feats, k, b, hist + ['split by %d' % c])


def histories(ctx, depth, first=None):
    ops = ['add 0', 'add 1', 'add 2', 'to (0, 1)', 'to (-1, 1)', 'back', 'stat', 'assign', 'clear', 'copy', 'split 1']

    def replay(h):
        ds = ClassificationDataSet(2, 1, nb_classes=3, class_labels=('p', 'q', 'r'))
        labels, feats, bounds, n = [], [], None, 0
        for o in h:
            op = ops[o]
            if op.startswith('add'):
                if bounds is not None:
                    return None
                c = int(op[4:])
                ds.addSample(feat(n), [c])
                labels.append(c)
                feats.append(feat(n))
                n += 1
            elif op.startswith('to'):
                b = eval(op[3:])
                ds._convertToOneOfMany(bounds=b)
                if bounds is None:
                    bounds = b
            elif op == 'back':
                ds._convertToClassNb()
                bounds = None
            elif op == 'stat':
                ds.calculateStatistics()
            elif op == 'assign':
                ds.assignClasses()
            elif op == 'clear':
                if bounds is not None:
                    return None
                ds.clear()
                labels, feats = [], []
            elif op == 'copy':
                ds = ds.copy()
            elif op.startswith('split'):
                ds = ds.splitByClass(1)[1]
                keep = [i for i, c in enumerate(labels) if c != 1]
                labels, feats = [labels[i] for i in keep], [feats[i] for i in keep]
        key = (snap(ds), bounds)
        hist = [ops[o] for o in h]
        look(ctx, 'hist:' + hist[-1], ds, labels, feats, 3, bounds, hist, ('p', 'q', 'r'))
        ctx.trace()
        ctx.outcome((tuple(labels), bounds))
        ctx.sample(hist)
        return key
    history.bfs(ctx, len(ops), depth, replay, first)


def sequence_histories(ctx, depth):
    ops = ['add 0', 'add 1', 'new', 'to (0, 1)', 'to (-1, 1)', 'back', 'stat', 'remove 0', 'remove 1', 'copy']

    def replay(h):
        ds = SequenceClassificationDataSet(2, 1, nb_classes=2, class_labels=('p', 'q'))
        seqs, bounds, n = [[]], None, 0
        for o in h:
            op = ops[o]
            if op.startswith('add'):
                if bounds is not None:
                    return None
                c = int(op[4:])
                ds.addSample(feat(n), [c])
                seqs[-1].append((feat(n), c))
                n += 1
            elif op == 'new':
                if not seqs[-1]:
                    return None
                ds.newSequence()
                seqs.append([])
            elif op.startswith('to'):
                b = eval(op[3:])
                ds._convertToOneOfMany(bounds=b)
                bounds = bounds or b
            elif op == 'back':
                ds._convertToClassNb()
                bounds = None
            elif op == 'stat':
                ds.calculateStatistics()
            elif op.startswith('remove'):
                i = int(op[7:])
                # removing the last samples of all re-initialises the set (see D02)
                if i >= len(seqs) or sum(len(s) for s in seqs) == len(seqs[i]):
                    return None
                ds.removeSequence(i)
                del seqs[i]
            elif op == 'copy':
                ds = ds.copy()
        key = (snap(ds), bounds)
        hist = [ops[o] for o in h]
        flat = [x for s in seqs for x in s]
        labels = [c for _, c in flat]
        k = 'seq:' + hist[-1]
        look(ctx, k, ds, labels, [f for f, _ in flat], 2, bounds, hist, ('p', 'q'))
        for i, s in enumerate(seqs):
            if s:
                ctx.check(ds.getSequenceClass(i) == s[-1][1], k + ':class', 'class of a sequence', i=i, got=ds.getSequenceClass(i), want=s[-1][1], history=hist)
                f, t = ds.getSequence(i)
                ctx.check(rows(f) == [x for x, _ in s], k + ':feat', 'features of a sequence', i=i, history=hist)
                want = onehot([c for _, c in s], 2, bounds) if bounds else [(float(c),) for _, c in s]
                ctx.check(rows(t) == want, k + ':tgt', 'targets of a sequence', i=i, got=rows(t), want=want, history=hist)
        if seqs[-1]:
            ctx.check(ints(ds.getSequenceClass()) == [s[-1][1] for s in seqs], k + ':classes', 'classes of all sequences', history=hist)
        ctx.check(ds.link == ['input', 'target'], k + ':link', 'linked fields', got=ds.link, history=hist)
        ctx.trace()
        return key
    history.bfs(ctx, len(ops), depth, replay)


def windows(ctx, nseq, maxlen, dim):
    for lens in itertools.product(range(1, maxlen + 1), repeat=nseq):
        for trailing in (False, True):
            for win in range(1, maxlen + 1):
                for cls in (SupervisedDataSet, ClassificationDataSet):
                    ds = SequentialDataSet(dim, 1)
                    seqs, t = [], 0
                    for L in lens:
                        ds.newSequence()
                        s = []
                        for _ in range(L):
                            r = tuple(float(10 * t + j) for j in range(dim)), (float(t % 3),)
                            ds.addSample(*r)
                            s.append(r)
                            t += 1
                        seqs.append(s)
                    if trailing:
                        ds.newSequence()
                    before = {f: rows(ds[f]) for f in ds.getFieldNames()}
                    with contextlib.redirect_stdout(io.StringIO()):
                        w = convertSequenceToTimeWindows(ds, cls, win)
                    want_in, want_t = [], []
                    for s in seqs:
                        for k in range(0, len(s) - win + 1, win):
                            want_in.append(tuple(x for r in s[k:k + win] for x in r[0]))
                            want_t.append(s[k + win - 1][1])
                    key = 'windows:%s' % cls.__name__
                    ctx.trans()
                    ctx.trace()
                    ctx.state((lens, win, trailing, cls.__name__))
                    ctx.check(isinstance(w, cls) and rows(w['input']) == want_in and rows(w['target']) == want_t, key,
                              'complete windows in order with the target of their last step', lengths=lens, window=win,
                              got=(rows(w['input']), rows(w['target'])), want=(want_in, want_t))
                    ctx.check({f: rows(ds[f]) for f in ds.getFieldNames()} == before, key + ':orig', 'original changed', lengths=lens, window=win)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    for n in range(0, 6 if th else 5):
        out.append(('labels-%d' % n, static, (n,)))
    for k in range(11):
        if k in (0, 1, 2) or th:
            out.append(('histories-%d' % k, histories, (7 if th else 6, (k,))))
    if not th:
        out.append(('histories-rest', histories, (6, tuple(range(3, 11)))))
    out.append(('sequences', sequence_histories, (7 if th else 6,)))
    for n in (1, 2, 3):
        out.append(('windows-%d' % n, windows, (n, 4 if n < 3 else 3, 1 + n % 2)))
    if th:
        out.append(('windows-4', windows, (4, 4, 2)))
    return out
