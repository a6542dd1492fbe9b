"""Lock-step exploration of real data sets against a list-of-rows model. Every operation history up to the depth bound
(append, appendLinked with good and refused rows, link, unlink, set field, convert, clear, cursor moves, iteration, copy,
vector format) over 1-3 fields of dimension 1-2, deduplicated on the complete concrete state (arrays with capacity, end
markers, links, cursor); every reached state is read through every accessor. Further: appends across every growth
boundary for each data set class, every not-a-number pattern of small arrays."""

import itertools
import numpy as np
from mc.canon import snap
from mc import history
from pybrain.datasets import SupervisedDataSet, UnsupervisedDataSet, ImportanceDataSet, ReinforcementDataSet
from pybrain.datasets.dataset import DataSet, OutOfSyncError, NoLinkedFieldsError

ASSUMPTIONS = ['setField on a linked field is only exercised with an array of the current length',
               'rows are given as sequences of the field dimension, refused rows have a wrong dimension']


class Refused(Exception):
    pass


class Model(object):
    def __init__(self, dims):
        self.dims = dict(dims)
        self.rows = {k: [] for k in self.dims}
        self.link = []
        self.cur = 0
        self.fmt = 'none'

    def clone(self):
        m = Model(self.dims)
        m.rows = {k: list(v) for k, v in self.rows.items()}
        m.link, m.cur, m.fmt = list(self.link), self.cur, self.fmt
        return m

    def length(self):
        if self.link:
            return len(self.rows[self.link[0]])
        return max(len(v) for v in self.rows.values())


ROWS = {1: [(3.0,), (-1.0,)], 2: [(5.0, 7.0), (2.0, 4.0)]}
BAD = (1.0, 2.0, 9.0)


def make_ops(dims, links):
    """list of (name, fn(ds) -> value, model(m) -> expected value or raises Refused / None if not applicable)"""
    ops = []

    def op(name, real, model):
        ops.append((name, real, model))

    def m_append(l, row, bad=False):
        def f(m):
            if l in m.link or bad:
                raise Refused()
            m.rows[l].append(row)
        return f
    for l, d in dims:
        op('append %s' % l, lambda ds, l=l, d=d: ds.append(l, list(ROWS[d][0])), m_append(l, ROWS[d][0]))
    l, d = dims[-1]
    op('append bad %s' % l, lambda ds, l=l: ds.append(l, list(BAD)), m_append(l, None, True))

    def m_al(k, bad):
        def f(m):
            if len(m.link) == 0:
                raise Refused()
            if bad:
                raise Refused()
            for l in m.link:
                m.rows[l].append(ROWS[m.dims[l]][k])
        return f

    def r_al(k, bad):
        def f(ds):
            names = list(ds.link)
            if not names:
                return ds.appendLinked([1.0])
            dd = dict(dims)
            rows = [list(ROWS[dd[l]][k]) for l in names]
            if bad:
                rows[-1] = list(BAD)
            return ds.appendLinked(*rows)
        return f
    op('appendLinked', r_al(0, False), m_al(0, False))
    op("appendLinked'", r_al(1, False), m_al(1, False))
    op('appendLinked bad', r_al(0, True), m_al(0, True))

    for lk in links:
        def m_link(m, lk=lk):
            if len(set(len(m.rows[l]) for l in lk)) > 1:
                raise Refused()
            m.link = list(lk)
        op('link %s' % (lk,), lambda ds, lk=lk: ds.linkFields(list(lk)), m_link)

    def m_unl(m):
        m.link = []
    op('unlink all', lambda ds: ds.unlinkFields(), m_unl)

    def m_unl1(m):
        m.link = [l for l in m.link if l != dims[0][0]]
    op('unlink first', lambda ds: ds.unlinkFields([dims[0][0]]), m_unl1)

    def m_next(m):
        if not m.link or not 0 <= m.cur < m.length():
            raise Refused()
        m.cur += 1
        return [m.rows[l][m.cur - 1] for l in m.link]
    op('next', lambda ds: ds.getLinked(), m_next)

    def m_get0(m):
        if not m.link or m.length() == 0:
            raise Refused()
        m.cur = 1
        return [m.rows[l][0] for l in m.link]
    op('get 0', lambda ds: ds.getLinked(0), m_get0)

    def m_reset(m):
        m.cur = 0
    op('reset', lambda ds: ds.reset(), m_reset)

    def m_clear(m, all_=False):
        m.cur = 0
        for l in (m.dims if all_ or not m.link else m.link):
            m.rows[l] = []
    op('clear', lambda ds: ds.clear(), m_clear)
    op('clear unlinked', lambda ds: ds.clear(unlinked=True), lambda m: m_clear(m, True))

    def m_set(m):
        l, d = dims[0]
        n = len(m.rows[l]) if l in m.link else 2
        m.rows[l] = [tuple(float(10 + i + j) for j in range(d)) for i in range(n)]

    def r_set(ds):
        l, d = dims[0]
        n = len(ds[l]) if l in ds.link else 2
        ds.setField(l, np.array([[float(10 + i + j) for j in range(d)] for i in range(n)]).reshape(n, d))
    op('setField', r_set, m_set)
    op('convert', lambda ds: ds.convertField(dims[0][0], int), lambda m: None)

    def m_fmt(f):
        def g(m):
            m.fmt = f
        return g
    op('format list', lambda ds: setattr(ds, 'vectorformat', 'list'), m_fmt('list'))
    op('format 2d', lambda ds: setattr(ds, 'vectorformat', '2d'), m_fmt('2d'))
    op('copy', None, None)
    return ops


def norm(v):
    return [tuple(float(x) for x in np.ravel(r)) for r in v]


def observe(ctx, key, ds, m, hist):
    """read everything through the public accessors and compare"""
    ok = True
    for l, d in m.dims.items():
        got = ds[l]
        if m.fmt == 'list':
            ok &= ctx.check(isinstance(got, list), key + ':type', 'list format returns lists', field=l, history=hist)
        got = norm(got)
        ok &= ctx.check(got == m.rows[l], key + ':field', 'rows of a field', field=l, got=got, want=m.rows[l], history=hist)
        ok &= ctx.check(ds.getDimension(l) == d, key + ':dim', 'dimension of a field', got=ds.getDimension(l), want=d, history=hist)
        ok &= ctx.check(ds.hasField(l), key + ':has', 'hasField', field=l, history=hist)
    ok &= ctx.check(sorted(ds.getFieldNames()) == sorted(m.dims), key + ':names', 'field names', got=ds.getFieldNames(), history=hist)
    n = m.length()
    ok &= ctx.check(len(ds) == n and ds.getLength() == n, key + ':len', 'length', got=len(ds), want=n, history=hist)
    if m.link:
        if m.cur <= n:
            ok &= ctx.check(bool(ds.endOfData()) == (m.cur == n), key + ':eod', 'endOfData', got=ds.endOfData(), want=m.cur == n, history=hist)
        for i in range(n):
            r = ds.getLinked(i)
            want = [m.rows[l][i] for l in m.link]
            ok &= ctx.check(norm(r) == want, key + ':row', 'linked row', i=i, got=r, want=want, history=hist)
            for x, l in zip(r, m.link):
                if m.fmt == 'list':
                    ok &= ctx.check(isinstance(x, list), key + ':rowlist', 'list vectors', got=repr(x), history=hist)
                elif m.fmt == '2d':
                    ok &= ctx.check(np.shape(x) == (1, m.dims[l]), key + ':row2d', '2d vectors', got=np.shape(x), history=hist)
                else:
                    ok &= ctx.check(np.shape(x) == (m.dims[l],), key + ':row1d', 'plain vectors', got=np.shape(x), history=hist)
        try:
            r = ds.getLinked(n)
            ctx.fail(key + ':past', 'a row past the end is returned', got=r, history=hist)
        except IndexError:
            pass
        rows = [norm(r) for r in ds]
        want = [[m.rows[l][i] for l in m.link] for i in range(n)]
        ok &= ctx.check(rows == want, key + ':iter', 'iteration visits each row once', got=rows, want=want, history=hist)
        ok &= ctx.check(ds.endOfData(), key + ':iterend', 'end of data after iterating', history=hist)
    return ok


def op_histories(ctx, dims, links, depth, first=None):
    ops = make_ops(dims, links)
    names = [o[0] for o in ops]

    def replay(h):
        ds = DataSet()
        m = Model(dims)
        for l, d in dims:
            ds.addField(l, d)
        kept = []
        last = len(h) - 1
        for pos, o in enumerate(h):
            name, real, model = ops[o]
            hist = [names[i] for i in h[:pos + 1]] if pos == last else None
            if name == 'copy':
                if kept:
                    return None
                kept.append((ds, m.clone()))
                ds = ds.copy()
                if pos == last:
                    # the cursor is not content; a copy may start anywhere legal, we put it to the start
                    pass
                ds.reset()
                m.cur = 0
                continue
            want, refused = None, False
            try:
                want = model(m)
            except Refused:
                refused = True
            try:
                got = real(ds)
            except (OutOfSyncError, NoLinkedFieldsError, IndexError, ValueError, AssertionError) as e:
                if pos == last:
                    ctx.check(refused, 'refused:%s' % name, 'a valid operation was refused: %s %s' % (type(e).__name__, e), history=hist)
                got = None
            else:
                if pos == last:
                    ctx.check(not refused, 'accepted:%s' % name, 'an invalid operation was accepted', history=hist, got=got)
                    if want is not None:
                        ctx.check(norm(got) == want, 'value:%s' % name, 'returned row', got=got, want=want, history=hist)
        key = (snap(ds), bool(kept) and snap(kept[0][0]), tuple(m.link), m.cur, m.fmt)
        hist = [names[i] for i in h]
        observe(ctx, names[h[-1]], ds, m, hist)
        for d0, m0 in kept:
            observe(ctx, 'original-after-copy:' + names[h[-1]], d0, m0, hist)
        ctx.outcome((tuple(sorted((k, tuple(v)) for k, v in m.rows.items())), tuple(m.link)))
        ctx.trace()
        ctx.sample(hist)
        return key
    history.bfs(ctx, len(ops), depth, replay, first)


CLASSES = {
    'supervised': (lambda: SupervisedDataSet(2, 1), lambda i: ([i, i + .5], [-i]), ['input', 'target']),
    'unsupervised': (lambda: UnsupervisedDataSet(2), lambda i: ([i, i + .5],), ['sample']),
    'importance': (lambda: ImportanceDataSet(2, 2), lambda i: ([i, i + .5], [-i, i], [i + .25, 1]), ['input', 'target', 'importance']),
    'reinforcement': (lambda: ReinforcementDataSet(2, 1), lambda i: ([i, i + .5], [-i], [i * 2]), ['state', 'action', 'reward']),
}


def growth(ctx, cls, n):
    """every number of appends up to n, with reads, refused rows and clears between"""
    make, row, fields = CLASSES[cls]
    for badat in [None] + list(range(0, n, 3)):
        for clearat in (None, 1, 4, 9):
            ds = make()
            rows = []
            for i in range(n):
                if i == badat:
                    args = [list(x) for x in row(i)]
                    args[-1] = [1.0, 2.0, 3.0, 4.0]
                    try:
                        ds.appendLinked(*args)
                        ctx.fail('%s:bad' % cls, 'row of the wrong dimension accepted', i=i)
                    except ValueError:
                        pass
                if i == clearat:
                    ds.clear()
                    rows = []
                ds.addSample(*row(i))
                rows.append(norm(row(i)))
                ctx.trans()
                ctx.state((cls, badat, clearat, i))
                ctx.check(len(ds) == len(rows), '%s:len' % cls, 'length', got=len(ds), want=len(rows), badat=badat, clearat=clearat)
                for k, f in enumerate(fields):
                    got = norm(ds[f])
                    want = [r[k] for r in rows]
                    ctx.check(got == want, '%s:%s' % (cls, f), 'field contents', i=i, got=got, want=want, badat=badat, clearat=clearat)
                j = (i * 7) % len(rows)
                ctx.check(norm(ds.getLinked(j)) == rows[j], '%s:row' % cls, 'row', j=j, got=ds.getLinked(j), want=rows[j])
            ds.reset()
            got = []
            while not ds.endOfData():
                got.append(norm(ds.getLinked()))
            ctx.check(got == rows, '%s:walk' % cls, 'walking the cursor', got=got, want=rows)
            ctx.trace()


def importance_default(ctx):
    """importance left out means one per target, given means what is given"""
    for td in (1, 2, 3):
        for pat in itertools.product((None, 'zero', 'given'), repeat=3):
            ds = ImportanceDataSet(1, td)
            want = []
            for i, p in enumerate(pat):
                imp = None if p is None else ([0.0] * td if p == 'zero' else [0.5 + j + i for j in range(td)])
                ds.addSample([i], [i] * td, imp if imp is None or i % 2 else np.array(imp))
                want.append(tuple([1.0] * td if imp is None else imp))
            ctx.trans(3)
            ctx.state((td, pat))
            ctx.check(norm(ds['importance']) == want, 'importance:%d' % td, 'importance values', got=ds['importance'], want=want, given=pat)
            ctx.trace()


def nans(ctx, rows, cols):
    """every not-a-number pattern: only those entries change, each to the mean of the others of its column"""
    for pat in itertools.product((0, 1), repeat=rows * cols):
        a = np.array([float(i * i + 1) for i in range(rows * cols)]).reshape(rows, cols)
        mask = np.array(pat, bool).reshape(rows, cols)
        b = a.copy()
        b[mask] = np.nan
        for spare in (0, 1):
            ds = SupervisedDataSet(cols, 1)
            for i in range(rows):
                ds.addSample(b[i], [i])
            if spare:
                ds.setField('input', b.copy())
            ds.replaceNansByMeans()
            ctx.trans()
            ctx.state((pat, spare))
            got = ds['input']
            for j in range(cols):
                good = [a[i, j] for i in range(rows) if not mask[i, j]]
                for i in range(rows):
                    if not mask[i, j]:
                        ctx.check(got[i, j] == a[i, j], 'nan:kept', 'a number was changed', pattern=pat, got=got)
                    elif good:
                        ctx.check(abs(got[i, j] - sum(good) / len(good)) < 1e-9, 'nan:mean', 'replaced by the column mean', pattern=pat, got=got)
            ctx.check(norm(ds['target']) == [(float(i),) for i in range(rows)], 'nan:target', 'other fields unchanged', pattern=pat)
            ctx.trace()


def jobs(tier, seed):
    th = tier == 'thorough'
    out = []
    ab = [('a', 1), ('b', 2)]
    lab = [('a', 'b'), ('b',)]
    n = len(make_ops(ab, lab))
    d = 6 if th else 5
    for k in range(0, n, 2):
        out.append(('two-fields-%d' % k, op_histories, (ab, lab, d, (k, k + 1))))
    abc = [('a', 1), ('b', 2), ('c', 1)]
    labc = [('a', 'b'), ('a', 'b', 'c')]
    n = len(make_ops(abc, labc))
    for k in range(0, n, 4):
        out.append(('three-fields-%d' % k, op_histories, (abc, labc, 5 if th else 4, tuple(range(k, k + 4)))))
    out.append(('one-field', op_histories, ([("a", 2)], [("a",)], d)))
    for c in sorted(CLASSES):
        out.append(('growth-' + c, growth, (c, 70 if th else 40)))
    out.append(('importance', importance_default, ()))
    out.append(('nans-3x2', nans, (3, 2)))
    out.append(('nans-4x1', nans, (4, 1)))
    if th:
        out.append(('nans-3x3', nans, (3, 3)))
    return out
