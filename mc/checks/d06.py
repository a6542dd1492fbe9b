"""Every small table written in LIBSVM, raw and MNIST format and read back by the real readers, alone and into a data set that has been
loaded before; every small table through every normaliser (range or moments, every bound, calculated or loaded from a saved file)
against the definition, row by row and as a whole."""

import copy, itertools, os, pickle, shutil, struct, tempfile, warnings
from numpy import array
from pybrain.datasets import SupervisedDataSet
from pybrain.tools.svmdata import SVMData
from pybrain.tools.datasettools import DataSetNormalizer
from pybrain.tools.datasets import mnist

ASSUMPTIONS = ['feature numbers ascend within a LIBSVM line, as the format demands, and some line mentions a feature', 'every raw target row marks a class',
               'Matlab files need a library that is not installed', 'normalised values compared up to 1e-9, values of saved files up to 1e-12']


def rows(a):
    return [[float(x) for x in r] for r in a]


def near(a, b, tol=1e-9):
    return len(a) == len(b) and all(len(r) == len(s) and all(abs(x - y) <= tol * max(1., abs(y)) for x, y in zip(r, s)) for r, s in zip(a, b))


def look(ctx, key, ds, feats, labels, ncls, **detail):
    ctx.check(rows(ds['input']) == feats, key + '-input', 'wrong features', got=rows(ds['input']), want=feats, **detail)
    ctx.check(rows(ds['target']) == [[float(l)] for l in labels], key + '-target', 'wrong labels', got=rows(ds['target']), want=labels, **detail)
    ctx.check(len(ds) == len(labels) and ds.getNbSamples() == len(labels), key + '-count', 'wrong number of samples', got=(len(ds), ds.getNbSamples()), want=len(labels), **detail)
    ctx.check(ds.getNbClasses() == ncls, key + '-classes', 'wrong number of classes', got=ds.getNbClasses(), want=ncls, **detail)
    ctx.check({float(k): v for k, v in ds.getClassHistogram().items()} == {float(l): labels.count(l) for l in labels}, key + '-histogram', 'wrong class histogram',
              got=ds.getClassHistogram(), want=labels, **detail)
    ctx.check(sorted(float(ds.getClass(i)) for i in range(len(set(labels)))) == sorted(float(l) for l in set(labels)), key + '-class', 'wrong class list', **detail)
    ctx.check((ds.indim, ds.outdim) == (len(feats[0]), 1), key + '-dim', 'wrong dimensions', got=(ds.indim, ds.outdim), **detail)
    for pos in range(len(labels)):
        ds.index = pos
        ok, got = ctx.guard(key + '-targets-crash', ds.getTargets)
        if ok:
            ctx.check(rows(got) == [[float(l)] for l in labels] and ds.index == pos, key + '-targets', 'wrong list of targets or a moved cursor', got=got, pos=pos, at=ds.index,
                      **detail)
    ds.index = 0


def copies(ctx, key, ds, feats, labels, ncls):
    for how, fn in (('copy', lambda: ds.copy()), ('deepcopy', lambda: copy.deepcopy(ds)), ('pickle', lambda: pickle.loads(pickle.dumps(ds)))):
        ok, c = ctx.guard(key + '-copy-crash', fn)
        if ok:
            look(ctx, key + '-copy', c, feats, labels, ncls, how=how)
            c.addSample([9.] * len(feats[0]), [0.])
            look(ctx, key + '-original', ds, feats, labels, ncls, how=how)


def svmtables(nrow, cells, labels):
    line = [(l, c) for l in labels for c in itertools.product(cells, repeat=2)]
    for n in range(1, nrow + 1):
        for t in itertools.product(line, repeat=n):
            if any(v is not None for _, c in t for v in c):
                yield t


def svmtext(t):
    return ''.join('%g%s\n' % (l, ''.join(' %d:%g' % (i + 1, v) for i, v in enumerate(c) if v is not None)) for l, c in t)


def svmwant(t):
    width = max(i + 1 for _, c in t for i, v in enumerate(c) if v is not None)
    return [[float(v or 0.) for v in c[:width]] for _, c in t], [l for l, _ in t]


def svm(ctx, nrow, cells, labels):
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'x.svm')
        tables = list(svmtables(nrow, cells, labels))
        for k, t in enumerate(tables):
            ctx.trans()
            with open(f, 'w') as fp:
                fp.write(svmtext(t))
            ok, ds = ctx.guard('svm-crash', SVMData, f)
            if not ok:
                continue
            feats, labs = svmwant(t)
            look(ctx, 'svm', ds, feats, labs, len(set(labs)), text=svmtext(t))
            ctx.state(t)
            if k % 7 == 0:
                copies(ctx, 'svm', ds, feats, labs, len(set(labs)))
            # the next table into the same data set replaces this one
            u = tables[(k * 31 + 17) % len(tables)]
            with open(f, 'w') as fp:
                fp.write(svmtext(u))
            ok, _ = ctx.guard('svm-again-crash', ds.loadData, f)
            if ok:
                feats, labs = svmwant(u)
                look(ctx, 'svm-again', ds, feats, labs, len(set(labs)), first=svmtext(t), text=svmtext(u))
            ctx.trace()
    finally:
        shutil.rmtree(d)


def raw(ctx, nrow):
    d = tempfile.mkdtemp()
    try:
        f, g = os.path.join(d, 'my.data'), os.path.join(d, 'my.targets')
        for ncls in (1, 2, 3):
            for width in (1, 2):
                line = [(l, c) for l in range(ncls) for c in itertools.product((0., -1.5), repeat=width)]
                last = None
                for n in range(1, nrow + 1):
                    for t in itertools.product(line, repeat=n):
                        ctx.trans()
                        with open(f, 'w') as fp:
                            fp.write(''.join(' '.join('%g' % v for v in c) + '\n' for _, c in t))
                        with open(g, 'w') as fp:
                            fp.write(''.join(' '.join(str(int(i == l)) for i in range(ncls)) + '\n' for l, _ in t))
                        ok, ds = ctx.guard('raw-crash', SVMData, f)
                        if not ok:
                            continue
                        feats, labs = [[float(v) for v in c] for _, c in t], [l for l, _ in t]
                        look(ctx, 'raw', ds, feats, labs, ncls, table=t)
                        ctx.state((ncls, width, t))
                        if last is not None:
                            ok, _ = ctx.guard('raw-again-crash', last.loadData, f)
                            if ok:
                                look(ctx, 'raw-again', last, feats, labs, ncls, table=t)
                        last = ds
                        ctx.trace()
    finally:
        shutil.rmtree(d)


def digits(ctx, deep):
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'x')
        vals = (0, 10, 13, 26, 128, 255) if deep else (0, 13, 26, 255)
        for n in range(4):
            for labs in itertools.product(vals, repeat=n):
                ctx.trans()
                with open(f, 'wb') as fp:
                    fp.write(struct.pack('>ii', 2049, n) + bytes(labs))
                ok, got = ctx.guard('mnist-labels-crash', lambda: list(mnist.labels(f)))
                ctx.check(not ok or [int(x) for x in got] == list(labs), 'mnist-labels', 'wrong labels', got=got, want=labs)
                ctx.state(('l', labs))
        for n, r, c in itertools.product(range(3), (1, 2), (1, 2)):
            for pix in itertools.product(vals if n * r * c <= 4 else (13, 255), repeat=n * r * c):
                ctx.trans()
                with open(f, 'wb') as fp:
                    fp.write(struct.pack('>iiii', 2051, n, r, c) + bytes(pix))
                ok, got = ctx.guard('mnist-images-crash', lambda: list(mnist.images(f)))
                want = [list(pix[i * r * c:(i + 1) * r * c]) for i in range(n)]
                ctx.check(not ok or [[int(x) for x in im] for im in got] == want, 'mnist-images', 'wrong images', got=got, want=want)
                ctx.state(('i', n, r, c, pix))
        for magic in (0, 2048, 2052, -1):
            ctx.trans()
            with open(f, 'wb') as fp:
                fp.write(struct.pack('>iiii', magic, 0, 1, 1))
            for rd in (mnist.labels, mnist.images):
                try:
                    list(rd(f))
                    ctx.fail('mnist-magic', 'a file of another format is read', magic=magic)
                except AssertionError:
                    pass
        for a, b in itertools.product(range(3), repeat=2):
            ctx.trans()
            sets = []
            for name, n, off in (('t10k', a, 3), ('train', b, 7)):
                ims = [bytes((i * 31 + k * 5 + off) % 256 for k in range(784)) for i in range(n)]
                labs = [(i * 4 + off) % 10 for i in range(n)]
                with open(os.path.join(d, name + '-images-idx3-ubyte'), 'wb') as fp:
                    fp.write(struct.pack('>iiii', 2051, n, 28, 28) + b''.join(ims))
                with open(os.path.join(d, name + '-labels-idx1-ubyte'), 'wb') as fp:
                    fp.write(struct.pack('>ii', 2049, n) + bytes(labs))
                sets.append((ims, labs))
            ok, got = ctx.guard('mnist-sets-crash', mnist.makeMnistDataSets, d)
            if ok:
                for name, ds, (ims, labs) in zip(('train', 'test'), got, sets[::-1]):
                    ctx.check(rows(ds['input']) == [[float(x) for x in im] for im in ims] and
                              rows(ds['target']) == [[float(k == l) for k in range(10)] for l in labs], 'mnist-sets', 'a data set differs from the files', which=name,
                              sizes=(a, b))
                    ctx.state(('s', a, b))
            ctx.trace()
    finally:
        shutil.rmtree(d)


def moments(col):
    m = sum(col) / len(col)
    return m, (sum((x - m) ** 2 for x in col) / len(col)) ** 0.5


def scaled(par, row, meanstd, bounds):
    out = []
    for x, col in zip(row, par):
        if meanstd:
            m, s = moments(col)
            out.append((x - m) / (s if s > 1e-12 else 1.))
        else:
            lo, hi = min(col), max(col)
            out.append((x - lo) * ((bounds[1] - bounds[0]) / (hi - lo) if hi > lo else 1.) + bounds[0])
    return out


def normal(ctx, nrow, width, vals, meanstd):
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'x.range')
    warnings.simplefilter('ignore')
    try:
        probe = [[v] * width for v in (-3., 0.3, 2.)]
        for n in range(1, nrow + 1):
            for t in itertools.product(itertools.product(vals, repeat=width), repeat=n):
                if meanstd and any(len(set(c)) == 1 and c[0] != round(c[0]) for c in zip(*t)):
                    continue        # the rounding error of a constant column's mean is not judged
                for bounds in ((-1, 1), (0., 1.), (2., 5.)) if not meanstd else ((-1, 1),):
                    for field in ('input', 'target'):
                        ctx.trans()
                        def data(table):
                            ds = SupervisedDataSet(width, width)
                            for r in table:
                                ds.addSample(*((r, [7.] * width) if field == 'input' else ([7.] * width, r)))
                            return ds
                        train = data(t)
                        nz = DataSetNormalizer(meanstd=meanstd)
                        ok, _ = ctx.guard('norm-crash', nz.calculate, train, bounds, field)
                        if not ok:
                            continue
                        ctx.check(rows(train[field]) == [list(map(float, r)) for r in t], 'norm-calculate', 'calculating the normalisation changes the data', table=t)
                        ok, _ = ctx.guard('norm-save-crash', nz.save, f)
                        tools = [('calculated', nz, 1e-9)]
                        if ok:
                            ok, lz = ctx.guard('norm-load-crash', DataSetNormalizer, f)
                            if ok:
                                tools.append(('loaded', lz, 1e-9))
                        par = list(zip(*t))
                        for how, z, tol in tools:
                            for table in (t, probe):
                                ds = data(table)
                                ok, _ = ctx.guard('norm-apply-crash', z.normalize, ds, field)
                                want = [scaled(par, r, meanstd, bounds) for r in table]
                                other = 'target' if field == 'input' else 'input'
                                if ok:
                                    ctx.check(near(rows(ds[field]), want, tol), 'norm-values', 'wrong normalised values', table=t, data=table, bounds=bounds, how=how, meanstd=meanstd,
                                              got=rows(ds[field]), want=want)
                                    ctx.check(rows(ds[other]) == [[7.] * width] * len(table), 'norm-other', 'another field is changed', table=t)
                                for r, w in zip(table, want):
                                    ok, got = ctx.guard('norm-pattern-crash', z.normalizePattern, array(r))
                                    if ok:
                                        ctx.check(near([list(map(float, got))], [w], tol), 'norm-pattern', 'a pattern is normalised otherwise than a data set', table=t, row=r,
                                                  how=how, meanstd=meanstd, got=list(got), want=w)
                            wrong = SupervisedDataSet(width + 1, width + 1)
                            wrong.addSample([1.] * (width + 1), [1.] * (width + 1))
                            try:
                                z.normalize(wrong, field)
                                ctx.fail('norm-dim', 'a data set of another dimension is normalised', width=width)
                            except IndexError:
                                pass
                        ctx.state((meanstd, bounds, field, t))
                        ctx.trace()
        try:
            DataSetNormalizer().normalize(data([[1.] * width]))
            ctx.fail('norm-empty', 'a normaliser without parameters normalises')
        except IndexError:
            pass
    finally:
        shutil.rmtree(d)


def jobs(tier, seed):
    deep = tier != 'quick'
    return [('svm', svm, (2, (None, 1.5, 0., -2.), (0, 1, 3)) if not deep else (3, (None, 1.5, 0.), (-1, 2))),
            ('svm-long', svm, (3, (None, 1.5), (-1, 1)) if not deep else (4, (None, 1.5), (-1, 1))),
            ('raw', raw, (3 if deep else 2,)), ('mnist', digits, (deep,)),
            ('range-1', normal, (3, 1, (-1., 0., 2., 0.1), False)), ('range-2', normal, (3 if deep else 2, 2, (-1., 0., 2.), False)),
            ('moments-1', normal, (3, 1, (-1., 0., 2., 0.1), True)), ('moments-2', normal, (3 if deep else 2, 2, (-1., 0., 2.), True))]
