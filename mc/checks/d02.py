"""Lock-step exploration of every sequential data set class against a plain list of lists. Every operation history up to
the depth bound over addSample (with and without a refused row), newSequence, removeSequence(i), clear, gotoSequence(i),
reading the next sample, reset and copy, deduplicated on the complete concrete state. In every reached state the data set
is read by sequence, by sample, by sequence iterator, by goto/end-of-sequence cursor and by its statistics, and all views
must equal the model; copies must leave the original alone."""

import numpy as np
from mc.canon import snap
from mc import history
from pybrain.datasets import SequentialDataSet, ImportanceDataSet, ReinforcementDataSet, SequenceClassificationDataSet
from pybrain.datasets.sequential import EmptySequenceError

ASSUMPTIONS = ['negative sequence indices are not exercised',
               'class data sets are created with the number of classes given, labels within it']


def row_seq(v):
    return ([v, -v], [v + .5])


CLS = {
    'sequential': (lambda: SequentialDataSet(2, 1), lambda v: ([v, -v], [v + .5]), ['input', 'target']),
    'importance': (lambda: ImportanceDataSet(1, 2), lambda v: ([v], [v + .5, 1.], [v + 1., 2.]), ['input', 'target', 'importance']),
    'reinforcement': (lambda: ReinforcementDataSet(1, 1), lambda v: ([v], [v + .5], [2. * v]), ['state', 'action', 'reward']),
    'seqclass': (lambda: SequenceClassificationDataSet(1, 1, nb_classes=2), lambda v: ([v], [int(v) % 2]), ['input', 'target']),
}


def norm(row):
    return tuple(tuple(float(x) for x in np.ravel(p)) for p in row)


class Model(object):
    def __init__(self):
        self.seqs = [[]]
        self.cur = 0
        self.added = 0

    def clone(self):
        m = Model()
        m.seqs = [list(s) for s in self.seqs]
        m.cur, m.added = self.cur, self.added
        return m

    def n(self):
        return sum(len(s) for s in self.seqs)

    def starts(self):
        out, t = [], 0
        for s in self.seqs:
            out.append(t)
            t += len(s)
        return out


def observe(ctx, cls, ds, m, hist, full=True):
    fields = CLS[cls][2]
    k = len(m.seqs)
    key = cls + ':' + hist[-1] + ':'
    ctx.check(ds.getNumSequences() == k, key + 'num', 'number of sequences', got=ds.getNumSequences(), want=k, history=hist)
    ctx.check(len(ds) == m.n(), key + 'len', 'number of samples', got=len(ds), want=m.n(), history=hist)
    flat = [r for s in m.seqs for r in s]
    for j, f in enumerate(fields):
        got = [tuple(float(x) for x in np.ravel(r)) for r in ds[f]]
        ctx.check(got == [r[j] for r in flat], key + 'field', 'field contents', field=f, got=got, want=flat, history=hist)
    if ds.getNumSequences() != k:
        return
    st = m.starts()
    cur = sum(1 for s in st if s <= m.cur) - 1
    ctx.check(ds.getCurrentSequence() == cur, key + 'current', 'sequence the cursor is in', got=ds.getCurrentSequence(), want=cur, cursor=m.cur, history=hist)
    ctx.check(bool(ds.endOfData()) == (m.cur == m.n()), key + 'eod', 'endOfData', history=hist)
    for i in range(k):
        end = st[i + 1] if i + 1 < k else m.n()
        want = m.cur >= end if i + 1 < k else m.cur == m.n()
        ctx.check(bool(ds.endOfSequence(i)) == want, key + 'eos', 'endOfSequence', i=i, got=ds.endOfSequence(i), cursor=m.cur, history=hist)
    for i, s in enumerate(m.seqs):
        ctx.check(ds.getSequenceLength(i) == len(s), key + 'seqlen', 'sequence length', i=i, got=ds.getSequenceLength(i), want=len(s), history=hist)
        parts = ds.getSequence(i)
        got = [norm(r) for r in zip(*parts)]
        ctx.check(len(parts) == len(fields) and got == s, key + 'seq', 'getSequence', i=i, got=got, want=s, history=hist)
        got = [norm(r) for r in ds.getSequenceIterator(i)]
        ctx.check(got == s, key + 'seqiter', 'getSequenceIterator', i=i, got=got, want=s, history=hist)
    got = [[norm(r) for r in q] for q in ds]
    ctx.check(got == m.seqs, key + 'iter', 'iterating over the data set', got=got, want=m.seqs, history=hist)
    got = [[norm(r) for r in q] for q in ds._provideSequences()]
    ctx.check(got == m.seqs, key + 'provide', 'sequence lists', got=got, want=m.seqs, history=hist)
    for bad in (k, k + 1):
        for name in ('getSequence', 'getSequenceLength', 'endOfSequence', 'gotoSequence', 'removeSequence'):
            before = snap(ds)
            try:
                getattr(ds, name)(bad)
                ctx.fail(key + 'beyond:' + name, 'a sequence that does not exist is accepted', i=bad, of=k, history=hist)
            except IndexError:
                if cls != 'seqclass':       # refreshes its class field first
                    ctx.check(snap(ds) == before, key + 'beyond-effect:' + name, 'a refused call changed the data set', i=bad, history=hist)
    if cls == 'reinforcement':
        got = [tuple(r) for r in ds.getSumOverSequences('reward')]
        want = [(sum(r[2][0] for r in s),) for s in m.seqs]
        ctx.check(np.allclose(got, want), key + 'sum', 'sum over sequences', got=got, want=want, history=hist)
    if cls == 'seqclass' and m.n():
        got = [int(x[0]) for x in ds['class']] if len(ds['class']) == m.n() else None
        for i, s in enumerate(m.seqs):
            if s:
                c = ds.getSequenceClass(i)
                ctx.check(c == s[-1][1][0], key + 'class', 'class of a sequence is that of its last sample', i=i, got=c, want=s[-1], history=hist)
        if m.seqs[-1]:
            got = [int(c) for c in ds.getSequenceClass()]
            want = [int(s[-1][1][0]) for s in m.seqs]
            ctx.check(got == want, key + 'classes', 'classes of all sequences', got=got, want=want, history=hist)
    if full:
        # cursor walks: forward through everything, sequence by sequence
        for i, s in enumerate(m.seqs):
            ds.gotoSequence(i)
            got = []
            while not ds.endOfSequence(i):
                got.append(norm(ds.getSample()))
                if len(got) > len(s):
                    break
            ctx.check(got == s, key + 'goto', 'goto and read until the end of the sequence', i=i, got=got, want=s, history=hist)
        ds.reset()
        got = []
        while not ds.endOfData() and len(got) <= m.n():
            got.append(norm(ds.getSample()))
        ctx.check(got == flat, key + 'walk', 'walking all samples', got=got, want=flat, history=hist)


def histories(ctx, cls, depth, maxseq, first=None):
    make, row, fields = CLS[cls]
    ops = ['add', 'new', 'next', 'clear', 'copy', 'addbad', 'reset']
    for i in range(maxseq):
        ops += ['remove %d' % i]
    for i in range(maxseq):
        ops += ['goto %d' % i]

    def replay(h):
        ds, m, orig = make(), Model(), None
        for pos, o in enumerate(h):
            op = ops[o]
            last = pos == len(h) - 1
            if op == 'add':
                r = row(float(m.added + 1))
                m.added += 1
                ds.addSample(*r)
                m.seqs[-1].append(norm(r))
            elif op == 'addbad':
                r = [list(x) for x in row(1.)]
                r[-1] = [1., 2., 3., 4.]
                try:
                    ds.appendLinked(*r)
                    if last:
                        ctx.fail(cls + ':bad', 'row of the wrong size accepted', history=[ops[i] for i in h])
                except ValueError:
                    pass
            elif op == 'new':
                want = None
                if m.n() == 0:
                    pass                    # nothing happens at the very start
                elif not m.seqs[-1]:
                    want = EmptySequenceError
                else:
                    m.seqs.append([])
                try:
                    ds.newSequence()
                    got = None
                except EmptySequenceError as e:
                    got = type(e)
                if last:
                    ctx.check(got == want, cls + ':new', 'newSequence', got=got, want=want, history=[ops[i] for i in h])
            elif op == 'next':
                flat = [r for s in m.seqs for r in s]
                try:
                    got = norm(ds.getSample())
                except IndexError:
                    got = None
                want = flat[m.cur] if m.cur < len(flat) else None
                if want is not None:
                    m.cur += 1
                if last:
                    ctx.check(got == want, cls + ':next', 'next sample', got=got, want=want, history=[ops[i] for i in h])
            elif op == 'reset':
                ds.reset()
                m.cur = 0
            elif op == 'clear':
                ds.clear()
                m.seqs, m.cur = [[]], 0
            elif op == 'copy':
                if orig is not None:
                    return None
                orig = (ds, m.clone())
                ds = ds.copy()
                ds.reset()
                m.cur = 0
            elif op.startswith('remove'):
                i = int(op.split()[1])
                if i >= len(m.seqs):
                    return None
                start = m.starts()[i]
                islast = i == len(m.seqs) - 1
                del m.seqs[i]
                if not m.seqs:
                    m.seqs = [[]]
                if m.n() == 0:
                    m.seqs = m.seqs[:1]
                    m.cur = 0
                else:
                    m.cur = m.n() if islast else start
                ds.removeSequence(i)
            elif op.startswith('goto'):
                i = int(op.split()[1])
                if i >= len(m.seqs):
                    return None
                ds.gotoSequence(i)
                m.cur = m.starts()[i]
        hist = [ops[i] for i in h]
        key = (cls, snap(ds), orig is not None and snap(orig[0]))
        observe(ctx, cls, ds, m, hist)
        if orig is not None:
            observe(ctx, cls, orig[0], orig[1], hist + ['(original)'])
        ctx.outcome(repr(m.seqs))
        ctx.trace()
        ctx.sample(hist)
        return key
    history.bfs(ctx, len(ops), depth, replay, first)


def compositions(ctx, cls, nseq, maxlen):
    """every tuple of sequence lengths, then every removal of one or two sequences, then appending"""
    import itertools
    make, row, fields = CLS[cls]
    for lens in itertools.product(range(1, maxlen + 1), repeat=nseq):
        for rem in [()] + [(i,) for i in range(nseq)] + [(i, j) for i in range(nseq) for j in range(nseq - 1)]:
            for cont in ('', 'add', 'new'):
                ds, m = make(), Model()
                for L in lens:
                    ds.newSequence()
                    if m.seqs[-1]:
                        m.seqs.append([])
                    for _ in range(L):
                        m.added += 1
                        r = row(float(m.added))
                        ds.addSample(*r)
                        m.seqs[-1].append(norm(r))
                for i in rem:
                    ds.removeSequence(i)
                    del m.seqs[i]
                if not m.seqs:
                    m.seqs = [[]]
                if cont:
                    if cont == 'new':
                        ds.newSequence()
                        if m.n():
                            m.seqs.append([])
                    r = row(99.)
                    ds.addSample(*r)
                    m.seqs[-1].append(norm(r))
                ctx.trans(nseq + len(rem))
                hist = ['lengths %s' % (lens,), 'remove %s' % (rem,), cont or 'look']
                ds.reset()
                if not ctx.state((cls, repr(m.seqs), lens, rem, cont)):
                    continue
                observe(ctx, cls, ds, m, hist)
                ctx.trace()


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    for c in sorted(CLS):
        for k in (0, 1, 2, 3, 4):
            if k != 0:
                continue
            out.append(('%s-histories' % c, histories, (c, 7 if th else 6, 3, None)))
        out.append(('%s-compositions' % c, compositions, (c, 3, 3)))
        if th:
            out.append(('%s-compositions4' % c, compositions, (c, 4, 3)))
    return out
