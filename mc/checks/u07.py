"""Every history of writes, additions and reads of dictionary files in a scratch directory, every option declaration with every
set of given options, every small dictionary through the matching, sub-selection and combination helpers, and every history of
calls through the memoizing, averaging and recording decorators, against direct reference computations."""

import contextlib
import io
import itertools
import os
import shutil
import tempfile
from mc.core import StopJob
from pybrain import utilities as ut
from pybrain.tools import filehandling as fh
from pybrain.tools.kwargsprocessor import KWArgsProcessor, KWArgDsc

ASSUMPTIONS = ['memoized functions are called with hashable arguments that are distinct as dictionary keys, and are deterministic',
               'alternatives of dictCombinations are mutually comparable within one key', 'a missing or unreadable file reads as the empty dictionary']


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vp-u07-')
    here = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d)


# ------------------------------------------------------------------------------- files

VALUES = [{}, {'a': 1}, {'a': [1, 2.5], (1, 2): None}, [1, 'x'], 'text\n\x00\xff', None]
NAMES = ['one', 'run two']


def files(ctx, depth):
    """writes, additions and reads; every read equals the last write plus additions"""
    ops = [('dump', n, i) for n in NAMES[:1] for i in range(len(VALUES))] + [('dump', NAMES[1], 2)] + \
          [('add', n, k, v) for n in NAMES for k, v in (('a', 1), ('b', [2]))] + [('read', n) for n in NAMES] + [('junk', NAMES[0])]

    def step(model, op, path):
        if op[0] == 'dump':
            ok, r = ctx.guard('dump-crash', fh.pickleDumpDict, op[1], VALUES[op[2]])
            ctx.check(r is True, 'dump', 'writing is not reported as successful', history=path, got=r)
            model[op[1]] = VALUES[op[2]]
        elif op[0] == 'add':
            cur = model.get(op[1], {})
            if not isinstance(cur, dict) or (op[2] in cur and not isinstance(cur[op[2]], list)):
                return False
            ctx.guard('add-crash', fh.addToDictFile, op[1], op[2], op[3])
            cur = dict((k, list(v) if isinstance(v, list) else v) for k, v in cur.items())
            cur[op[2]] = cur.get(op[2], []) + [op[3]]
            model[op[1]] = cur
        elif op[0] == 'junk':
            with open(op[1] + '.pickle', 'wb') as f:
                f.write(b'no pickle')
            model[op[1]] = {}
        for n in NAMES:
            ok, got = ctx.guard('read-crash', fh.pickleReadDict, n)
            if not ctx.check(ok and got == model.get(n, {}) and type(got) == type(model.get(n, {})), 'read', 'what is read is not what was written', history=path, name=n, got=str(got),
                             want=str(model.get(n, {}))):
                return False
        ok, names = ctx.guard('list-crash', fh.getAllFilesIn, '.')
        ctx.check(ok and sorted(names) == sorted(model), 'list', 'not the files in the directory', history=path, got=names, want=sorted(model))
        return True

    def rec(path):
        for op in ops:
            for f in os.listdir('.'):
                os.remove(f)
            model = {}
            good = True
            for o in path + [op]:
                ctx.trans()
                if not step(model, o, path + [op]):
                    good = False
                    break
            if good:
                ctx.state((len(path), str(sorted(model.items()))))
                ctx.trace()
                if len(path) + 1 < depth:
                    rec(path + [op])
    with scratch():
        rec([])
    ctx.outcome(depth)


def unwritable(ctx):
    with scratch() as d:
        for name, val in ((os.path.join(d, 'nowhere', 'x'), {}), (os.path.join(d, 'x'), lambda: 0)):
            ctx.trans()
            ctx.state(name)
            ok, r = ctx.guard('dump-crash', fh.pickleDumpDict, name, val)
            ctx.check(r is False, 'dump-failure', 'a failed write is reported as successful', got=r)
        ok, r = ctx.guard('read-crash', fh.pickleReadDict, os.path.join(d, 'missing'))
        ctx.check(r == {}, 'read-missing', 'a missing file does not read as the empty dictionary', got=r)


def selecting(ctx, depth):
    strings = ['', 'a', 'ab', 'ba', 'b', 'abc']
    for n in range(depth + 1):
        for ss in itertools.product(strings, repeat=n):
            for m in range(3):
                for req in itertools.product(['a', 'b', 'c', 'ab'], repeat=m):
                    for both in (True, False):
                        ctx.trans()
                        ctx.state((ss, req))
                        arg, r = list(ss), list(req)
                        ok, got = ctx.guard('select-crash', fh.selectSome, arg, r, both)
                        if ok:
                            want = [s for s in ss if not req or (all if both else any)(q in s for q in req)]
                            ctx.check(list(got) == want and arg == list(ss) and r == list(req), 'select', 'not the strings with the required substrings', strings=ss, required=req, all=both, got=got)
    with scratch():
        for f in ('x-1.pickle', 'x-2.pickle', 'y.pickle', 'x.txt', 'pickle', '.pickle'):
            open(f, 'w').close()
        for tag in ('', 'x', 'x-', 'z'):
            for ext in ('.pickle', '.txt'):
                ctx.trans()
                want = sorted(f[:-len(ext)] for f in os.listdir('.') if f.endswith(ext) and f.startswith(tag))
                ctx.check(sorted(fh.getAllFilesIn('.', tag, ext)) == want, 'list-tag', 'not the files of that tag and extension', tag=tag, ext=ext)
    ctx.outcome('select')


class Thing(ut.Serializable):
    def __init__(self, x=None):
        self.x = x
        self.filename = None

    def save_rev(self, flo, up=False):
        s = repr(self.x)[::-1]
        flo.write((s.upper() if up else s).encode())

    @classmethod
    def load_rev(cls, flo):
        return cls(flo.read().decode()[::-1])


def serial(ctx):
    with scratch() as d:
        for i, x in enumerate([None, 1, [1, {2: 'a\r\n'}], 'text\r\n\x00', b'\r\n\x01', (1.5, 'b')]):
            for name, fmt in (('f', None), ('f.pkl', None), ('f.dat', None), ('f.txt', 'pickle'), ('f.pkl', 'rev'), ('g.v1.pkl', None)):
                for proto in (None, 0, 1, 2):
                    kw = {} if proto is None or fmt == 'rev' else dict(protocol=proto)
                    ctx.trans()
                    ctx.state((i, name, fmt, proto))
                    t = Thing(x)
                    ok, _ = ctx.guard('save-crash', t.saveToFile, name, fmt, **kw)
                    ok2, r = ctx.guard('load-crash', Thing.loadFromFile, name, fmt)
                    if ok and ok2:
                        ctx.check(isinstance(r, Thing) and r.x == (x if fmt != 'rev' else repr(x)) and r.filename == name, 'load', 'what is loaded is not what was saved', name=name, format=fmt,
                                  got=repr(r.x), want=repr(x))
                    ctx.check(t.x == x, 'save-argument', 'saving changed the object')
        for f in (lambda: Thing(1).saveToFile('h', 'nope'), lambda: Thing.loadFromFile('f', 'nope'), lambda: Thing(1).saveToFileLike(io.BytesIO(), 'xml'), lambda: Thing.loadFromFileLike(io.BytesIO(), 'xml')):
            ctx.trans()
            try:
                f()
                ctx.fail('format', 'an unknown format is accepted')
            except ValueError:
                pass
    for name, want in (('a.mat', 'matlab'), ('a.txt', 'ascii'), ('a.svm', 'libsvm'), ('a.pkl', 'pickle'), ('a.nc', 'netcdf'), ('a', None), ('a.b.pkl', 'pickle'), ('a.xyz', None), ('pkl', None)):
        ctx.check(ut.formatFromExtension(name) == want, 'extension', 'not the format of the extension', name=name, got=ut.formatFromExtension(name))
    ctx.outcome('serial')


# ------------------------------------------------------------------------------- options

def options(ctx, count):
    decls = [dict(), dict(default=5), dict(default=None), dict(mandatory=True), dict(private=True), dict(private=True, default=7), dict(private=True, mandatory=True)]
    names = ['alpha', 'beta', 'gamma'][:count]
    for ds in itertools.product(decls, repeat=count):
        for given in itertools.product((None, 0, 'v', False), repeat=count):
            # None: not given, except that 'v' stands for None given
            kw = dict((n, None if g == 'v' else g) for n, g in zip(names, given) if g is not None)
            for extra in ({}, {'other': 3}):
                ctx.trans()
                ctx.state((str(ds), given))

                class Obj(object):
                    pass
                o = Obj()
                arg = dict(kw, **extra)
                p = KWArgsProcessor(o, arg)
                want, raised = {}, False
                for n, d in zip(names, ds):
                    attr = ('_' if d.get('private') else '') + n
                    missing = d.get('mandatory') and n not in kw
                    try:
                        p.add(n, **d)
                        ctx.check(not missing, 'mandatory', 'a missing mandatory option is accepted', declaration=d)
                    except KeyError:
                        ctx.check(missing, 'refused', 'an option is refused', declaration=d, given=kw)
                    if n in kw:
                        want[attr] = kw[n]
                    elif 'default' in d:
                        want[attr] = d['default']
                ctx.check(vars(o) == want and all(type(vars(o).get(k)) == type(v) for k, v in want.items()), 'options', 'not every given option or its default', declarations=ds, given=kw, got=vars(o), want=want)
                ctx.check(arg == dict(kw, **extra), 'options-argument', 'the given options were changed')
    for default in (None, 0, 1):
        try:
            KWArgDsc('x', mandatory=True, default=default)
            ctx.fail('conflict', 'a mandatory option with a default is accepted', default=default)
        except AssertionError:
            pass
    ctx.outcome(count)


def setargs(ctx):
    class Plain(object):
        def __init__(self):
            self.a, self.b = 1, 2

    class Xml(ut.XMLBuildable):
        def __init__(self, **kw):
            self.a, self.b = 1, 2
            self.setArgs(**kw)
    with contextlib.redirect_stdout(io.StringIO()):
        for ks in itertools.chain.from_iterable(itertools.combinations('abcd', r) for r in range(5)):
            for vals in itertools.product((0, None, [3]), repeat=len(ks)):
                ctx.trans()
                d = dict(zip(ks, vals))
                ctx.state(str(sorted(d.items(), key=str)))
                known = dict((k, v) for k, v in d.items() if k in 'ab')
                o = Plain()
                ok, _ = ctx.guard('setargs-crash', ut.setAllArgs, o, dict(d))
                ctx.check(vars(o) == dict(dict(a=1, b=2), **known), 'setargs', 'not exactly the known variables are set', given=d, got=vars(o))
                ok, x = ctx.guard('setargs-crash', Xml, **d)
                if ok:
                    ctx.check((x.a, x.b) == (known.get('a', 1), known.get('b', 2)) and not hasattr(x, 'c'), 'setargs-xml', 'not exactly the known variables are set', given=d)
                    ctx.check((x.argdict or {}) == known, 'argdict', 'the arguments to store are not the known ones', given=d, got=x.argdict)
        x, y = Xml(a=5), Xml()
        ctx.check(not y.argdict, 'argdict-shared', 'objects share their stored arguments', got=y.argdict)
        first = ut.Named()
        names = set()
        for i in range(200):
            cls = (ut.Named, type('Sub', (ut.Named,), {}))[i % 2]
            n = cls()
            ctx.trans()
            ctx.check(n.name not in names and n.name == n.name, 'unique-name', 'a generated name is not unique', got=n.name)
            names.add(n.name)
            m = cls()
            m.name = 'mine'
            ctx.check(m.name == 'mine', 'name', 'a name is not kept')
    ctx.outcome('args')


# ------------------------------------------------------------------------------- dictionaries

def dicts(keys, vals):
    for r in range(len(keys) + 1):
        for ks in itertools.combinations(keys, r):
            for vs in itertools.product(vals, repeat=r):
                yield dict(zip(ks, vs))


def matching(ctx, keys):
    ds = list(dicts(keys, (1, 2, None)))
    sels = list(dicts(keys, (1, None, [], [1], [2, None], [[1]], (1, 2))))
    for d in ds:
        for s in sels:
            ctx.state((str(d), str(s)))
            for req in (False, True):
                ctx.trans()
                ok, got = ctx.guard('match-crash', ut.matchingDict, d, s, req)
                if ok:
                    want = all((d[k] in v if isinstance(v, list) else d[k] == v) if k in d else not req for k, v in s.items())
                    ctx.check(bool(got) == want, 'match', 'wrong match', d=d, selection=s, require=req, got=got)
        for ks in itertools.chain.from_iterable(itertools.combinations(list(keys) + ['zz'], r) for r in range(len(keys) + 2)):
            for flip in (False, True):
                ctx.trans()
                before = dict(d)
                ok, got = ctx.guard('sub-crash', ut.subDict, d, list(ks), flip)
                if ok:
                    ctx.check(got == dict((k, v) for k, v in d.items() if (k in ks) != flip) and d == before and got is not d, 'sub', 'not the entries of the allowed keys', d=d, keys=ks, flip=flip, got=got)
    ctx.outcome('match')


def combos(ctx, keys):
    alts = [5, 'x', [], [1], [2, 1], [1, 1, 2], (3, 4), ('a',), None]
    for d in dicts(keys, alts):
        ctx.state(str(d))
        ctx.trans()
        before = dict(d)
        ok, got = ctx.guard('combinations-crash', lambda: list(ut.dictCombinations(d)))
        if ok:
            ks = sorted(d)
            menu = [sorted(set(d[k])) if isinstance(d[k], (list, tuple)) else [d[k]] for k in ks]
            want = sorted(str(sorted(zip(ks, c))) for c in itertools.product(*menu))
            ctx.check(sorted(str(sorted(g.items())) for g in got) == want, 'combinations', 'not every combination exactly once', d=d, got=got)
            ctx.check(d == before and len(set(map(id, got))) == len(got), 'combinations-argument', 'the argument was changed, or results share a dictionary', d=d)
    ctx.outcome('combinations')


# ------------------------------------------------------------------------------- decorators

def memo(ctx, depth):
    args = [((), {}), ((1,), {}), ((2,), {}), ((1, 2), {}), ((), {'a': 1}), ((1,), {'b': 2}), ((), {'a': 1, 'b': 2}), ((), {'b': 2, 'a': 1}), ((), {'b': 1}), ((), {'a': 2, 'b': 1}), ((1, 2), {'a': 1}), (((1, 2),), {}), (('a', 1), {}), ((None,), {})]
    for hist in itertools.product(range(len(args)), repeat=depth):
        ctx.state(hist)
        calls = []

        def f(*a, **kw):
            calls.append((a, tuple(sorted(kw.items()))))
            return ('result', a, sorted(kw.items()))
        g, other = ut.memoize(f), ut.memoize(lambda *a, **kw: 'other')
        for h in hist:
            ctx.trans()
            a, kw = args[h]
            ok, r = ctx.guard('memo-crash', g, *a, **kw)
            ctx.check(ok and r == ('result', a, sorted(kw.items())), 'memo', 'not what the plain function returns', history=hist, args=str((a, kw)), got=str(r))
            ctx.check(other(*a, **kw) == 'other', 'memo-shared', 'two memoized functions share results', history=hist)
        ctx.check(len(calls) == len(set(calls)), 'memo-once', 'the function was called twice for the same arguments', history=hist, calls=calls)
    ctx.outcome('memo')


def decorators(ctx, depth):
    for n in range(1, depth + 1):
        for vals in itertools.product((0., 1., -2.5, 4.), repeat=n):
            ctx.state(vals)
            ctx.trans()
            it = iter(vals)
            seen = []

            @ut.multiEvaluate(n)
            def f(x, y=0):
                seen.append((x, y))
                return next(it)
            ok, r = ctx.guard('multi-crash', f, 3, y=4)
            ctx.check(ok and abs(r - sum(vals) / n) < 1e-12 and seen == [(3, 4)] * n, 'multi', 'not the average of the repeated evaluations', vals=vals, got=r)

            class Fun(object):
                def __call__(self, x):
                    return x * 2

            o = Fun()
            res = ut.storeCallResults(o)
            out = [o(v) for v in vals]
            ctx.check(res == out == [2 * v for v in vals], 'stored', 'not all results are stored', vals=vals, got=res)
            g = ut.garbagecollect(lambda *a, **k: (a, k))
            ctx.check(g(*vals, z=1) == (vals, {'z': 1}), 'gc', 'the result is not passed through')
            box = []
            import threading
            done = threading.Event()

            def back(r):
                box.append(r)
                done.set()

            @ut.threaded(back)
            def work(*a, **k):
                return a, k
            work(*vals, q=2)
            ctx.check(done.wait(20) and box == [(vals, {'q': 2})], 'threaded', 'the callback does not receive the result once', vals=vals, got=box)
    ctx.outcome('decorators')


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('files', files, (4 if th else 3,)), ('unwritable', unwritable, ()), ('selecting', selecting, (4 if th else 3,)), ('serial', serial, ()),
           ('setargs', setargs, ()), ('matching', matching, (('a', 'b') if not th else ('a', 'b', 1),)), ('combos', combos, (('a', 'b', 'c'),)),
           ('memo', memo, (5 if th else 4,)), ('decorators', decorators, (5 if th else 4,))]
    for n in (1, 2, 3):
        out.append(('options-%d' % n, options, (n,)))
    return out
