"""Every data set class x every content reachable by a bounded operation history x every way of saving or copying (pickle
protocols, file by extension, file by explicit format, file-like object, compact option, copy, deepcopy) on the real
code. The reproduced object is compared with the original through all accessors, the original must be unchanged by being
saved, and then every following operation is applied to both (they must keep agreeing) and to one only (the other must
not notice). LIBSVM text files: all small sparse label/feature tables against the reader."""

import copy
import io
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
from pybrain.datasets import (SupervisedDataSet, UnsupervisedDataSet, SequentialDataSet, ImportanceDataSet,
                              ReinforcementDataSet, ClassificationDataSet, SequenceClassificationDataSet)
from pybrain.datasets.dataset import DataSet

ASSUMPTIONS = ['cursor position and the cached class histogram are not part of the saved state',
               'matlab and netcdf need libraries that are not installed']


def base():
    ds = DataSet()
    ds.addField('a', 1)
    ds.addField('b', 2)
    ds.linkFields(['a', 'b'])
    return ds


def smp(*rows):
    k = [0]

    def f(ds):
        n = len(ds)
        assert not (isinstance(rows[0][0], str) and ds.data['target'].dtype.kind == 'i')    # no infinity in an int field
        ds.appendLinked(*[[(x + n) if not isinstance(x, str) else float(x) for x in r] for r in rows])
    return f


def addi(vals):
    return lambda ds: ds.addSample(*[list(v) for v in vals])


def aux(ds):
    ds.addField('aux', 3)
    ds.append('aux', [1., 2., 3.])


def fmt(f):
    return lambda ds: setattr(ds, 'vectorformat', f)


def seqrm(ds):
    if ds.getNumSequences() > 1:
        ds.removeSequence(0)


def newseq(ds):
    if ds.getNumSequences() and ds.getSequenceLength(ds.getNumSequences() - 1):
        ds.newSequence()


def to1n(ds):
    if len(ds):
        ds._convertToOneOfMany()


def tonb(ds):
    ds._convertToClassNb()


def clsadd(c):
    def f(ds):
        t = [c] if ds.outdim == 1 else [1 if i == c else 0 for i in range(ds.outdim)]
        ds.addSample([float(len(ds)), float(c)], t)
        if ds.outdim != 1:      # keep class field in step, as 1-of-k rows carry no label
            ds.setField('class', np.concatenate([ds['class'], [[c]]]))
    return f


class Chatty(SupervisedDataSet):
    """a user's subclass"""


COMMON = {'fmt-list': fmt('list'), 'fmt-2d': fmt('2d'), 'aux': aux}
CLS = {
    'base': (base, dict(COMMON, add=smp([1], [2, 3]), unlink=lambda ds: ds.unlinkFields(), only=lambda ds: (ds.unlinkFields(['a'])), clear=lambda ds: ds.clear())),
    'supervised': (lambda: SupervisedDataSet(2, 1), dict(COMMON, add=smp([1, 2], [3]), special=smp(['inf', 'nan'], ['-inf']), conv=lambda ds: ds.convertField('target', int) if np.isfinite(ds.data['target'][:len(ds)]).all() else None, clear=lambda ds: ds.clear())),
    'subclass': (lambda: Chatty(1, 1), dict(add=smp([1], [3]), fmt=fmt('1d'))),
    'unsupervised': (lambda: UnsupervisedDataSet(2), dict(COMMON, add=smp([1, 2]))),
    'sequential': (lambda: SequentialDataSet(1, 1), dict(COMMON, add=smp([1], [3]), new=newseq, rm=seqrm)),
    'importance': (lambda: ImportanceDataSet(1, 1), dict(add=smp([1], [3], [.5]), new=newseq, rm=seqrm, fmt=fmt('2d'))),
    'reinforcement': (lambda: ReinforcementDataSet(2, 1), dict(add=smp([1, 2], [3], [.5]), new=newseq, rm=seqrm, fmt=fmt('1d'))),
    'classification': (lambda: ClassificationDataSet(2, 1, nb_classes=2, class_labels=['x', 'y']), {'add0': clsadd(0), 'add1': clsadd(1), '1ofn': to1n, 'nb': tonb, 'stat': lambda ds: ds.calculateStatistics()}),
    'classification-unnamed': (lambda: ClassificationDataSet(2, 1), {'add0': clsadd(0), 'add1': clsadd(1), 'stat': lambda ds: ds.calculateStatistics()}),
    'seqclass': (lambda: SequenceClassificationDataSet(2, 1, nb_classes=2, class_labels=['x', 'y']), {'add0': clsadd(0), 'add1': clsadd(1), 'new': newseq, 'rm': seqrm, '1ofn': to1n}),
}


def via_file(suffix, fmt=None, **kw):
    def f(ds, d):
        p = os.path.join(d, 'x' + suffix)
        ds.saveToFile(p, fmt, **kw)
        o = ds.__class__.loadFromFile(p, fmt)
        return o
    return f


def via_flo(**kw):
    def f(ds, d):
        b = io.BytesIO()
        ds.saveToFileLike(b, **kw)
        b.seek(0)
        return ds.__class__.loadFromFileLike(b)
    return f


MODES = {
    'file.pkl': via_file('.pkl'),
    'file-noext': via_file(''),
    'file-format': via_file('.dat', 'pickle'),
    'file-compact': via_file('.pkl', compact=True),
    'flo-p2-compact': via_flo(protocol=2, compact=True),
    'flo': via_flo(),
    'pickle-p4': lambda ds, d: pickle.loads(pickle.dumps(ds, 4)),
    'pickle-p1': lambda ds, d: pickle.loads(pickle.dumps(ds, 1)),
    'copy': lambda ds, d: ds.copy(),
    'deepcopy': lambda ds, d: copy.deepcopy(ds),
}


def num(x):
    return 'nan' if x != x else float(x)


def view(ds):
    """everything visible of a data set (moves only the cursor)"""
    v = dict(type=type(ds).__name__, names=sorted(ds.getFieldNames()), link=list(ds.link), fmt=ds.vectorformat, len=len(ds))
    for f in ds.getFieldNames():
        arr = ds[f]
        if ds.vectorformat == 'list':
            v['islist ' + f] = isinstance(arr, list)
        v['field ' + f] = [tuple(num(x) for x in np.ravel(r)) for r in arr]
        v['dim ' + f] = ds.getDimension(f)
        v['kind ' + f] = np.asarray(ds.data[f]).dtype.kind if len(arr) else None
    for a in ('indim', 'outdim', 'dim', 'statedim', 'actiondim', 'nClasses'):
        if hasattr(ds, a):
            v[a] = getattr(ds, a)
    if hasattr(ds, 'class_labels'):
        v['class_labels'] = list(ds.class_labels)
    if ds.link:
        rows = []
        for i in range(len(ds)):
            rows.append([(np.shape(x), isinstance(x, list), tuple(num(y) for y in np.ravel(x))) for x in ds.getLinked(i)])
        v['rows'] = rows
    if isinstance(ds, SequentialDataSet):
        v['seqs'] = [[len(x) for x in ds.getSequence(i)] for i in range(ds.getNumSequences())]
    ds.reset()
    return v


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def roundtrip(ctx, cname, depth):
    make, ops = CLS[cname]
    names = sorted(ops)
    d = tempfile.mkdtemp(prefix='d04')
    try:
        seen = set()
        for L in range(depth + 1):
            for h in itertools.product(names, repeat=L):
                if any(h.count(x) > 1 for x in ('aux', 'unlink', 'only', 'fmt', 'fmt-list', 'fmt-2d')):
                    continue
                ds = make()
                try:
                    for o in h:
                        ops[o](ds)
                except AssertionError:      # appendLinked on an unlinked set
                    continue
                v0 = view(ds)
                k = repr(sorted(v0.items(), key=lambda t: t[0]))
                if k in seen:
                    continue
                seen.add(k)
                for mode in sorted(MODES):
                    key = '%s:%s:' % (cname, mode)
                    ctx.trans()
                    o = MODES[mode](ds, d)
                    ctx.check(not diff(v0, view(ds)), key + 'self', 'saving changed the data set itself', history=h, diff=diff(v0, view(ds)))
                    df = diff(v0, view(o))
                    if not ctx.check(not df, key + 'same', 'the loaded data set differs', history=h, diff=df):
                        continue
                    ctx.state((cname, k, mode))
                    ctx.trace()
                    for nxt in names:
                        if nxt == 'aux' and 'aux' in h:
                            continue
                        # same operation on a twin of the original and on the loaded one
                        twin = make()
                        for q in h:
                            ops[q](twin)
                        try:
                            ops[nxt](twin)
                        except AssertionError:
                            continue
                        o2 = MODES[mode](ds, d)
                        ops[nxt](o2)
                        df = diff(view(twin), view(o2))
                        ctx.check(not df, key + 'then:' + nxt, 'the loaded data set behaves differently', history=h, then=nxt, diff=df)
                        ctx.check(not diff(v0, view(ds)), key + 'alias:' + nxt, 'operating on the loaded data set changed the original', history=h, then=nxt, diff=diff(v0, view(ds)))
                        ctx.trans()
                    # in-place writes to the original stay out of the loaded one
                    before = view(o)
                    for f in ds.getFieldNames():
                        if ds.endmarker[f] and f != 'sequence_index' and f != 'class' and ds.data[f].flags.writeable:
                            old = ds.data[f][0].copy()
                            ds.data[f][0] = 0 if np.any(old != 0) else 1
                            ctx.check(not diff(before, view(o)), key + 'write', 'writing to the original changed the loaded one', field=f, history=h)
                            ds.data[f][0] = old
                    ctx.sample(dict(history=h, mode=mode))
    finally:
        shutil.rmtree(d)


def libsvm(ctx, rows, feats):
    vals = (None, 0.5, -2.0)
    for labels in itertools.product((0, 1, 2), repeat=rows):
        for cells in itertools.product(vals, repeat=rows * feats):
            tab = [cells[i * feats:(i + 1) * feats] for i in range(rows)]
            if any(all(x is None for x in r) for r in tab):
                continue
            width = max(max(j + 1 for j, x in enumerate(r) if x is not None) for r in tab)
            txt = ''.join('%d %s\n' % (l, ' '.join('%d:%g' % (j + 1, x) for j, x in enumerate(r) if x is not None)) for l, r in zip(labels, tab))
            ds = ClassificationDataSet.load_libsvm(io.StringIO(txt))
            want = [tuple(0.0 if x is None else x for x in r[:width]) for r in tab]
            ctx.trans()
            ctx.trace()
            ctx.state(txt)
            ctx.check([tuple(r) for r in ds['input']] == want, 'libsvm:input', 'features read', text=txt, got=ds['input'], want=want)
            ctx.check([int(x[0]) for x in ds['target']] == list(labels), 'libsvm:labels', 'labels read', text=txt, got=ds['target'])
            ctx.check(ds.nClasses == len(set(labels)), 'libsvm:nclasses', 'number of classes', text=txt, got=ds.nClasses)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('roundtrip-' + c, roundtrip, (c, 4 if th and len(CLS[c][1]) < 7 else 3)) for c in sorted(CLS)]
    out.append(('libsvm', libsvm, (2, 3) if th else (2, 2)))
    return out
