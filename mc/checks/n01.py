"""Feed-forward networks against an independent evaluator of the graph (mc/netref.py). Every directed graph on up to
four modules (self loops included up to three, at four in the thorough tier) x choices of input and output modules: acyclic ones
are activated and compared, cyclic ones must be refused. Every order of adding the modules and connections of a fixed network. Every module kind x every
connection kind, every pair of slices on small modules written as connection slices, module slices and slices of slices.
Every history up to the depth bound over activations, backward passes, resets, parameter writes, growth and re-sorting,
single modules included, with the function compared after every operation."""

import itertools
import numpy as np
from mc import netref as R
from mc import history
from mc.canon import close, rnd

ASSUMPTIONS = ['module names are distinct within a network', 'parameter values and inputs are fixed irregular numbers, two or three of each per structure']
NAMES = ['m', 'c', 'x', 'a']     # not in topological order
KINDS = ['linear', 'sigmoid', 'tanh', 'softsign', 'relu', 'softmax']


def inputs(n, k=2):
    return [np.array([((i * 7 + 3 * j) % 11) / 5.0 - 0.9 for i in range(n)]) for j in range(k)]


def indim(spec):
    md = {m[0]: m for m in spec['mods']}
    return sum(R.dims(*md[n][1:])[0] for n in spec['ins'])


def compare(ctx, key, net, ref, xs, hist):
    ok = True
    for x in xs:
        arg = x.copy()
        y = net.activate(arg)
        ctx.trans()
        want = np.real(ref.run([x])[0])
        ok &= ctx.check(close(y, want), key, 'output differs from the graph', got=y, want=want, input=x, history=hist)
        ok &= ctx.check((arg == x).all(), key + ':arg', 'activation changed its argument', history=hist)
        net.activate(x * 0)
        ok &= ctx.check(close(y, want), key + ':alias', 'a returned output changes later', history=hist)
    return ok


def verify(ctx, key, spec, hist, nin=2, **kw):
    vals = R.values(spec)
    net, objs = R.build(spec, **kw)
    R.install(objs, vals)
    ctx.check(net.indim == indim(spec), key + ':indim', 'input dimension', got=net.indim, history=hist)
    compare(ctx, key, net, R.Ref(spec, vals), inputs(indim(spec), nin), hist)
    return net, objs, vals


# ------------------------------------------------------------------ topologies
def graphs(ctx, n, loops, part, parts):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    dims_ = [2, 1, 2, 1]
    for code in range(part, 1 << len(pairs), parts):
        edges = [p for k, p in enumerate(pairs) if code >> k & 1]
        cyc = cyclic(n, edges)
        for v, (ins, outs) in enumerate([((0,), (n - 1,)), ((n - 1, 0), (0, 1))]):
            mods = [(NAMES[i], KINDS[(i + v * 2) % 5], dims_[i], None) for i in range(n)]
            conns = [R.conn('full', NAMES[i], NAMES[j], name='%s%s' % ('zyxw'[(i + j) % 4], (i, j))) for i, j in edges]
            spec = dict(mods=mods, conns=conns, ins=[NAMES[i] for i in ins], outs=[NAMES[i] for i in outs])
            hist = dict(edges=edges, ins=ins, outs=outs)
            key = 'graph:%d:%d:%d' % (n, code, v)
            ctx.state((n, code, v))
            if cyc:
                try:
                    R.build(spec)
                except Exception as e:
                    ctx.check('onstruction' in type(e).__name__, key, 'cyclic network refused with %r' % e, history=hist)
                else:
                    ctx.fail(key, 'a network whose connections form a cycle was accepted', history=hist)
                ctx.trans()
            else:
                verify(ctx, key, spec, hist)
                ctx.trace()
            if ctx.traces == 7:
                ctx.sample(hist)


def cyclic(n, edges):
    left = set(range(n))
    while True:
        src = [i for i in left if not any(b == i and a in left for a, b in edges)]
        if not src:
            return bool(left)
        left -= set(src)


# ------------------------------------------------------------------ order of construction
def orders(ctx, part, parts):
    mods = [('q', 'linear', 2, None), ('b', 'bias', 1, None), ('h', 'tanh', 2, None), ('g', 'gate', 1, None), ('a', 'sigmoid', 2, None)]
    conns = [R.conn('full', 'q', 'h'), R.conn('full', 'b', 'h'), R.conn('identity', 'h', 'g'), R.conn('full', 'g', 'a'),
             R.conn('linear', 'q', 'a'), R.conn('sfull', 'h', 'a', name='s1', mother='mo', nparams=4)]
    spec = dict(mods=mods, conns=conns, ins=['q'], outs=['a', 'h'])
    vals = R.values(spec)
    base = None
    todo = [(m, tuple(range(6))) for m in itertools.permutations(range(5))] + [((0, 1, 2, 3, 4), c) for c in itertools.permutations(range(6))]
    for k, (mo, co) in enumerate(todo):
        if k % parts != part:
            continue
        net, objs, _ = verify(ctx, 'order', spec, [mo, co], morder=mo, corder=co)
        ctx.state((mo, co))
        layout = rnd(net.params)
        if base is None:
            base = layout
        # same names -> same layout of the parameter vector, in whatever order it was put together
        ctx.check(layout == base, 'order:layout', 'parameter layout depends on the order of construction', history=[mo, co])
        # the other way round: writing the whole vector
        v2 = np.array([0.1 * i - 0.7 for i in range(net.paramdim)])
        net._setParameters(v2)
        compare(ctx, 'order:set', net, R.Ref(spec, R.read(objs, vals)), inputs(2), [mo, co])
        ctx.trace()


def stepwise(ctx, n, part, parts):
    """every acyclic graph in two instalments: sorted, used, extended by the remaining connections (with or without parameters, refused if they close a cycle), sorted and used again"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for code in range(part, 1 << len(pairs), parts):
        edges = [p for k, p in enumerate(pairs) if code >> k & 1]
        if cyclic(n, edges):
            continue
        for late in range(len(edges)):
            for kind in ('identity', 'full'):
                for both in ((False, True) if len(edges) > 2 and late else (False,)):
                    tail = {late, late - 1} if both else {late}
                    mods = [(NAMES[i], KINDS[i % 3], 2, None) for i in range(n)]
                    mkc = lambda k: R.conn(kind if k in tail else 'full', NAMES[edges[k][0]], NAMES[edges[k][1]], name='%s%s' % ('zyxw'[(edges[k][0] + edges[k][1]) % 4], edges[k]))
                    first = [mkc(k) for k in range(len(edges)) if k not in tail]
                    rest = [mkc(k) for k in sorted(tail)]
                    spec = dict(mods=mods, conns=list(first), ins=[NAMES[0]], outs=[NAMES[n - 1]])
                    hist = dict(edges=edges, late=sorted(tail), kind=kind)
                    vals = R.values(dict(spec, conns=first + rest))
                    net, objs = R.build(spec)
                    R.install(objs, {k: v for k, v in vals.items() if k in objs})
                    key = 'stepwise:%s' % kind
                    ok = compare(ctx, key + ':before', net, R.Ref(spec, vals), inputs(2, 1), hist)
                    for c in rest:
                        objs[c[4]['name']] = R.make_conn(c, objs)
                        net.addConnection(objs[c[4]['name']])
                    net.sortModules()
                    R.install(objs, vals)
                    if ok:
                        compare(ctx, key, net, R.Ref(dict(spec, conns=first + rest), vals), inputs(2, 1), hist)
                    # a connection back closes a cycle, although the network was sorted before
                    a, b = edges[late]
                    bad = R.make_conn(R.conn(kind, NAMES[b], NAMES[a], name='back'), objs)
                    net.addConnection(bad)
                    try:
                        net.sortModules()
                    except Exception as e:
                        ctx.check('onstruction' in type(e).__name__, key + ':cycle', 'cyclic network refused with %r' % e, history=hist)
                    else:
                        ctx.fail(key + ':cycle', 'a connection that closes a cycle was accepted on a network sorted before', history=hist)
                    ctx.state((code, late, kind, both))
                    ctx.trans(3)
                    ctx.trace()


# ------------------------------------------------------------------ kinds and slices
MODS = [('linear', 2, None), ('sigmoid', 2, None), ('tanh', 3, None), ('softsign', 2, None), ('relu', 3, None), ('softmax', 3, None),
        ('psoftmax', 4, dict(slicelength=2)), ('psoftmax', 6, dict(slicelength=3)), ('bias', 1, None), ('mult', 2, None), ('gate', 2, None), ('dgate', 2, None), ('switch', 2, None),
        ('mdlstm', 1, dict(dimensions=2)), ('mdlstmp', 2, dict(dimensions=2)), ('mdlstmp', 1, None)]
CONNS = ['full', 'notself', 'identity', 'linear', 'perm', 'subs', 'sfull', 'ssubs']


def mk(kind, src, dst, m, n, sl=None, name='k'):
    """a connection of that kind over m outputs and n inputs, or None"""
    if kind in ('notself', 'identity', 'linear', 'perm') and m != n:
        return None
    if kind == 'perm':
        return R.conn(kind, src, dst, sl, name, permutation=[(i + 1) % m for i in range(m)], blocksize=1)
    if kind == 'sfull':
        return R.conn(kind, src, dst, sl, name, mother='mo', nparams=m * n)
    if kind == 'ssubs':
        return R.conn(kind, src, dst, sl, name, mother='mo', nparams=n)
    return R.conn(kind, src, dst, sl, name)


def kinds(ctx, kind):
    for a in MODS:
        for b in MODS:
            da, db = R.dims(*a), R.dims(*b)
            c = mk(kind, 'a', 'b', da[1], db[0])
            if c is None or da[1] == 0 or db[0] == 0:
                continue
            spec = dict(mods=[('a',) + a, ('b',) + b], conns=[c], ins=['a'], outs=['b', 'a'])
            verify(ctx, 'kinds:%s:%s:%s' % (kind, a[0], b[0]), spec, [kind, a, b], nin=3)
            ctx.state((kind, repr(a), repr(b)))
            ctx.trace()
            # twice in parallel: contributions add up
            c2 = mk(kind, 'a', 'b', da[1], db[0], name='k2')
            spec = dict(spec, conns=[c, c2])
            verify(ctx, 'parallel:%s:%s:%s' % (kind, a[0], b[0]), spec, [kind, a, b], nin=1)
            ctx.trace()


def perms(ctx):
    for blocks in (1, 2, 3, 4):
        for bs in (1, 2):
            for p in itertools.permutations(range(blocks)):
                n = blocks * bs
                spec = dict(mods=[('a', 'linear', n, None), ('b', 'linear', n, None)],
                            conns=[R.conn('perm', 'a', 'b', name='k', permutation=list(p), blocksize=bs)], ins=['a'], outs=['b'])
                verify(ctx, 'perm:%d' % bs, spec, [p, bs])
                ctx.state((p, bs))
                ctx.trace()


def slices(ctx, kind):
    """every slice of the source outputs x every slice of the target inputs, in four ways of writing it"""
    from pybrain.structure import FeedForwardNetwork
    from pybrain.structure.moduleslice import ModuleSlice
    n = 4
    spans = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    for (a, b) in spans:
        for (e, f) in spans:
            sl = (a, b, e, f)
            c = mk(kind, 'a', 'b', b - a, f - e, sl)
            if c is None:
                continue
            spec = dict(mods=[('a', 'tanh', n, None), ('b', 'sigmoid', n, None)], conns=[c, R.conn('full', 'a', 'b', name='rest')], ins=['a'], outs=['b'])
            verify(ctx, 'slice:%s' % kind, spec, sl)
            ctx.state((kind, sl))
            ctx.trace()
            if (a, b) == (0, n) or (e, f) == (0, n):
                continue
            # the same through module slices, and slices of slices
            for way in ('slice', 'mixed', 'nested'):
                vals = R.values(spec)
                objs = {m[0]: R.make_mod(m) for m in spec['mods']}
                A, B = objs['a'], objs['b']
                cc = list(c)
                if way == 'slice':
                    objs2 = dict(objs, a=ModuleSlice(A, outSliceFrom=a, outSliceTo=b), b=ModuleSlice(B, inSliceFrom=e, inSliceTo=f))
                    cc[3] = None
                elif way == 'mixed':
                    # slice starting at the offset, upper end given on the connection
                    if a == 0 or e == 0:
                        continue
                    objs2 = dict(objs, a=ModuleSlice(A, outSliceFrom=a), b=ModuleSlice(B, inSliceFrom=e))
                    cc[3] = (0, b - a, 0, f - e)
                else:
                    if a == 0 or e == 0 or (b == n and f == n) or b - a == n - 1 or f - e == n - 1:
                        continue
                    sa, sb = ModuleSlice(A, outSliceFrom=1), ModuleSlice(B, inSliceFrom=1)
                    objs2 = dict(objs, a=ModuleSlice(sa, outSliceFrom=a - 1, outSliceTo=b - 1), b=ModuleSlice(sb, inSliceFrom=e - 1, inSliceTo=f - 1))
                    cc[3] = None
                net = FeedForwardNetwork()
                net.addInputModule(A)
                net.addOutputModule(B)
                o = R.make_conn(tuple(cc), objs2)
                for k in objs2:
                    objs.setdefault(k, objs2[k])
                objs['k'] = o
                objs['rest'] = R.make_conn(spec['conns'][1], objs)
                net.addConnection(o)
                net.addConnection(objs['rest'])
                net.sortModules()
                R.install(objs, vals)
                compare(ctx, 'slice:%s:%s' % (kind, way), net, R.Ref(spec, vals), inputs(n), [way, sl])
                ctx.trace()


def slices_of_slices(ctx):
    """inner slice open-ended or closed, on modules with different numbers of inputs and outputs"""
    from pybrain.structure import FeedForwardNetwork, LinearLayer, GateLayer, FullConnection, IdentityConnection
    from pybrain.structure.moduleslice import ModuleSlice
    n = 4
    for a in range(n):
        for b in list(range(a + 1, n + 1)) + [None]:
            hi = n if b is None else b
            if hi - a == n:
                continue
            for c in range(hi - a):
                for d in list(range(c + 1, hi - a + 1)) + [None]:
                    want = list(range(a, hi))[c:d]
                    if len(want) == hi - a and False:
                        continue
                    for side in ('out', 'in'):
                        src = LinearLayer(n if side == 'out' else len(want), name='a')
                        dst = LinearLayer(len(want), name='b') if side == 'out' else GateLayer(n // 2, name='b')
                        probe = None
                        if len(want) == hi - a:
                            continue        # not a slicing: documented as refused
                        if side == 'out':
                            s = ModuleSlice(ModuleSlice(src, outSliceFrom=a, outSliceTo=b), outSliceFrom=c, outSliceTo=d)
                            con = IdentityConnection(s, dst)
                        else:
                            s = ModuleSlice(ModuleSlice(dst, inSliceFrom=a, inSliceTo=b), inSliceFrom=c, inSliceTo=d)
                            con = IdentityConnection(src, s)
                        net = FeedForwardNetwork()
                        net.addInputModule(src)
                        net.addOutputModule(dst)
                        net.addConnection(con)
                        net.sortModules()
                        x = np.array([0.3, -0.4, 0.9, 1.7])[:src.indim]
                        y = net.activate(x)
                        ctx.trans()
                        if side == 'out':
                            exp = x[want]
                            got = y
                        else:
                            exp = np.zeros(n)
                            exp[want] = x
                            got = dst.inputbuffer[0]
                        ctx.check(close(got, exp), 'sliceofslice:' + side, 'slice of a slice', got=got, want=exp, history=[a, b, c, d])
                        ctx.state((a, b, c, d, side))
                        ctx.trace()


def nested(ctx):
    """networks inside networks, both levels over every pair of module kinds"""
    for k1 in KINDS[:4]:
        for k2 in ('gate', 'switch', 'tanh', 'softmax'):
            inner = dict(mods=[('i', k1, 2, None), ('o', k2, 2, None), ('b', 'bias', 1, None)], ins=['i'], outs=['o', 'i'],
                         conns=[R.conn('full', 'i', 'o'), R.conn('full', 'b', 'o')])
            din, dout = R.dims('net', inner)
            for deep in (False, True):
                box = inner if not deep else dict(mods=[('w', 'net', inner, None), ('z', 'linear', 3, None)], ins=['w'], outs=['z'],
                                                  conns=[R.conn('full', 'w', 'z')])
                for parallel in (False, True):
                    mods = [('in', 'linear', 3, None), ('n1', 'net', box, None), ('out', 'sigmoid', 2, None)]
                    conns = [R.conn('full', 'in', 'n1'), R.conn('full', 'n1', 'out')]
                    if parallel:
                        mods.append(('n2', 'net', box, None))
                        conns += [R.conn('full', 'in', 'n2'), R.conn('full', 'n2', 'out'), R.conn('full', 'n1', 'n2')]
                    spec = dict(mods=mods, conns=conns, ins=['in'], outs=['out'])
                    verify(ctx, 'nested:%s:%s' % (k1, k2), spec, [k1, k2, deep, parallel])
                    ctx.state((k1, k2, deep, parallel))
                    ctx.trace()


# ------------------------------------------------------------------ histories
X = [np.array([0.4, -1.1]), np.array([-0.7, 0.2])]


def hist_spec(which):
    if which == 'plain':
        return dict(mods=[('i', 'linear', 2, None), ('h', 'tanh', 2, None), ('g', 'gate', 1, None), ('d', 'dgate', 1, None), ('s', 'switch', 1, None), ('m', 'mult', 1, None), ('b', 'bias', 1, None), ('o', 'softmax', 2, None)],
                    conns=[R.conn('full', 'i', 'h'), R.conn('full', 'b', 'h'), R.conn('identity', 'h', 'g'), R.conn('identity', 'h', 'd'), R.conn('full', 'g', 's'), R.conn('full', 'd', 'm'), R.conn('full', 's', 'o'), R.conn('full', 'm', 'o')],
                    ins=['i'], outs=['o', 's'])
    return dict(mods=[('i', 'linear', 2, None), ('n', 'net', dict(mods=[('a', 'sigmoid', 2, None), ('c', 'gate', 1, None)], conns=[R.conn('full', 'a', 'c')], ins=['a'], outs=['c']), None), ('o', 'tanh', 2, None)],
                conns=[R.conn('sfull', 'i', 'n', name='s1', mother='mo', nparams=4), R.conn('full', 'n', 'o'), R.conn('sfull', 'i', 'o', name='s2', mother='mo', nparams=4)], ins=['i'], outs=['o'])


def histories(ctx, which, depth, first):
    from pybrain.datasets import SupervisedDataSet
    spec0 = hist_spec(which)
    OPS = ['x0', 'x1', 'back', 'reset', 'params', 'inplace', 'dataset', 'grow', 'sort']

    def replay(h):
        spec = dict(spec0, conns=list(spec0['conns']))
        vals = R.values(spec)
        net, objs = R.build(spec)
        R.install(objs, vals)
        salt = 0
        last = None
        for o in h:
            op = OPS[o]
            if op in ('x0', 'x1'):
                last = X[int(op[1])]
                net.activate(last)
            elif op == 'back':
                if last is None:
                    return None
                net.backActivate(np.ones(net.outdim))
            elif op == 'reset':
                net.reset()
            elif op == 'params':
                salt += 1
                net._setParameters(np.array([0.3 * ((i * 5 + salt) % 7) - 0.8 for i in range(net.paramdim)]))
                vals = R.read(objs, vals)
            elif op == 'inplace':
                salt += 1
                net.params[:] = [0.25 * ((i * 3 + salt) % 9) - 1 for i in range(net.paramdim)]
                vals = R.read(objs, vals)
            elif op == 'dataset':
                ds = SupervisedDataSet(2, 1)
                for x in X:
                    ds.addSample(x, [0])
                got = net.activateOnDataset(ds)
                want = [np.real(y) for y in R.Ref(spec, vals).run(X)]
                ctx.check(close(got, want), 'history:dataset', 'activateOnDataset', got=got, want=want, history=[OPS[i] for i in h])
            elif op == 'grow':
                # add a connection to a finished network and sort it again
                if any(c[4]['name'].startswith('new') for c in spec['conns']):
                    return None
                c = R.conn('full', 'i', 'o', name='new')
                spec['conns'].append(c)
                objs['new'] = R.make_conn(c, objs)
                net.addConnection(objs['new'])
                if which == 'nested':
                    return None      # re-sorting around a nested network: see N04
                net.sortModules()
                vals = R.read(objs, dict(vals, new=0))
            elif op == 'sort':
                net.sortModules()
        hist = [OPS[i] for i in h]
        ref = R.Ref(spec, vals)
        for x in X:
            y = net.activate(x)
            want = np.real(ref.run([x])[0])
            ctx.check(close(y, want), 'history:%s:%s' % (which, '-'.join(hist[-2:])), 'output depends on what was done before', got=y, want=want, history=hist)
        ctx.trace()
        return h        # every history is its own state: the point is that none of them matters

    history.bfs(ctx, len(OPS), depth, replay, first=first, prune=False)


def single(ctx, depth):
    """a module on its own: repeated activation and backward passes, with and without reset in between"""
    for m in MODS:
        if m[0] == 'bias':
            continue
        di, do = R.dims(*m)
        xs = inputs(di, 2)
        es = inputs(do, 2)
        for h in itertools.product(range(4), repeat=depth):
            mod = R.make_mod(('m',) + m)
            p = None
            if R.nparams(*m):
                p = np.array([0.2 * i - 0.5 for i in range(R.nparams(*m))])
                mod.params[:] = p
            cur = None
            for o in h:
                if o < 2:
                    cur = xs[o]
                    y = mod.activate(cur)
                    want = np.real(R.apply_mod(m[0], m[1], m[2], cur, p, None)[0])
                    ctx.check(close(y, want), 'single:%s' % m[0], 'output of a module used before', got=y, want=want, history=[m, h])
                elif o == 2 and cur is not None:
                    mod.backActivate(es[0])
                elif o == 3:
                    mod.reset()
                    cur = None
                ctx.trans()
            ctx.trace()
            ctx.state((m[0], m[1], h))


def malformed(ctx):
    """wrong input sizes are refused"""
    from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
    for n in (1, 2, 3):
        for k in range(0, 5):
            net = FeedForwardNetwork()
            a, b = LinearLayer(n), LinearLayer(2)
            net.addInputModule(a)
            net.addOutputModule(b)
            net.addConnection(FullConnection(a, b))
            net.sortModules()
            ctx.trans()
            ctx.state((n, k))
            try:
                net.activate(np.ones(k))
            except Exception:
                ctx.check(k != n, 'size', 'input refused', history=[n, k])
            else:
                ctx.check(k == n, 'size', 'input of the wrong size accepted', history=[n, k])


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('graphs-2', graphs, (2, True, 0, 1)), ('graphs-3', graphs, (3, True, 0, 1))]
    p = 16 if deep else 6
    js += [('graphs-4-%d' % i, graphs, (4, deep, i, p)) for i in range(p)]
    js += [('stepwise-3', stepwise, (3, 0, 1))] + [('stepwise-4-%d' % i, stepwise, (4, i, p)) for i in range(p)]
    js += [('orders-%d' % i, orders, (i, 3)) for i in range(3)]
    js += [('kinds-' + k, kinds, (k,)) for k in CONNS]
    js += [('slices-' + k, slices, (k,)) for k in CONNS]
    js += [('perms', perms, ()), ('nested', nested, ()), ('slice-of-slice', slices_of_slices, ()), ('malformed', malformed, ())]
    js += [('single', single, (5 if deep else 4,))]
    for w in ('plain', 'nested'):
        for f in range(9):
            js.append(('history-%s-%d' % (w, f), histories, (w, 5 if deep else 4, [f])))
    return js
