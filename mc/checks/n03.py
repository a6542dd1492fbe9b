"""Back-propagation against exact derivatives: the graph is evaluated by an independent evaluator (mc/netref.py) on complex
numbers, so that the derivative of the weighted output sum with respect to every parameter and every input comes from the complex step
(no finite-difference error). Every acyclic graph on three modules and on four with the fixed order, every module kind x connection kind (feed-forward, and recurrent over time),
every pair of slices, every block permutation, shared weights, nested networks; every set of forward x recurrent connections on three modules over a sequence; every history up to the
depth bound of samples, clearing of derivatives, plain activations, abandoned sequences, resets and parameter writes, with the accumulated derivatives compared in every state."""

import itertools
import numpy as np
from mc import netref as R
from mc import history
from mc.canon import close
from mc.checks.n01 import mk, cyclic

ASSUMPTIONS = ['layers that pass the error through by documented convention (softmax, mixture density), sampling layers and subsampling (backward not implemented) are excluded',
               'one backward pass per forward pass, in reverse order of time; recurrent networks are reset between sequences']
TOL = 1e-8


def fixed(n, j, salt=0):
    return np.array([(((i * 7 + 3 * j + salt * 5 + 1) * 37) % 23) / 11.0 - 0.97 for i in range(n)])


def plus(vals, path, i, h):
    v = dict(vals)
    if len(path) == 1:
        a = np.array(v[path[0]], dtype=complex)
        a[i] += h
        v[path[0]] = a
    else:
        v[path[0]] = plus(v[path[0]], path[1:], i, h)
    return v


def paths(vals, pre=()):
    for n, v in vals.items():
        if isinstance(v, dict):
            for p in paths(v, pre + (n,)):
                yield p
        else:
            yield pre + (n,), len(v)


def at(d, path):
    for p in path:
        d = d[p]
    return d


H = 1e-30


def exact(spec, vals, xs, es):
    """-> {path: gradient}, [input gradients] of sum_t es[t] . y[t]"""
    def loss(v, xx):
        return sum((e * y).sum() for e, y in zip(es, R.Ref(spec, v).run(xx)))
    g = {}
    for p, n in paths(vals):
        g[p] = np.array([np.imag(loss(plus(vals, p, i, 1j * H), xs)) / H for i in range(n)])
    gx = []
    for t in range(len(xs)):
        r = []
        for i in range(len(xs[t])):
            xx = [np.array(x, dtype=complex) for x in xs]
            xx[t][i] += 1j * H
            r.append(np.imag(loss(vals, xx)) / H)
        gx.append(np.array(r))
    return g, gx


def sweep(net, spec, xs, es):
    """the library's forward and backward passes; -> input errors in time order"""
    if spec.get('recurrent'):
        net.reset()
        for x in xs:
            net.activate(x)
        return [net.backActivate(e) for e in reversed(es)][::-1]
    r = []
    for x, e in zip(xs, es):
        net.activate(x)
        r.append(net.backActivate(e))
    return r


def verify(ctx, key, spec, hist, steps=1):
    vals = R.values(spec)
    net, objs = R.build(spec)
    R.install(objs, vals)
    xs = [fixed(net.indim, j) for j in range(steps)]
    es = [fixed(net.outdim, j, 3) for j in range(steps)]
    gx = sweep(net, spec, xs, es)
    ctx.trans(2 * steps)
    g, wx = exact(spec, vals, xs, es)
    got = R.read(objs, vals, 'derivs')
    for p in g:
        ctx.check(close(at(got, p), g[p], TOL), key, 'derivative of %s' % '/'.join(p), got=at(got, p), want=g[p], history=hist)
    ctx.check(close(np.array(gx), np.array(wx), TOL), key + ':input', 'returned input error', got=gx, want=wx, history=hist)
    if net.paramdim:
        total = sorted(float(round(v, 7)) for p in g for v in g[p])
        ctx.check(close(sorted(net.derivs), total, 1e-6), key + ':vector', 'derivative vector of the network', got=net.derivs, want=total, history=hist)
    ctx.trace()
    return net


# ------------------------------------------------------------------ topologies
def graphs(ctx, n, part, parts):
    names = ['m', 'c', 'x', 'a']
    kinds_ = ['linear', 'tanh', 'sigmoid', 'softsign']
    dm = [2, 1, 2, 1]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j] if n < 4 else [(i, j) for i in range(4) for j in range(i + 1, 4)]
    for code in range(part, 1 << len(pairs), parts):
        es = [p for k, p in enumerate(pairs) if code >> k & 1]
        if cyclic(n, es):
            continue
        for ins, outs in (((0,), (n - 1,)), ((0, 1), (n - 1, 0))):
            spec = dict(mods=[(names[i], kinds_[i], dm[i], None) for i in range(n)], ins=[names[i] for i in ins], outs=[names[i] for i in outs],
                        conns=[R.conn('full', names[i], names[j]) for i, j in es])
            verify(ctx, 'graph:%d' % n, spec, dict(edges=es, ins=ins, outs=outs))
            ctx.state((n, code, ins))


def rec_graphs(ctx, part, parts):
    names = ['p', 'b', 'k']
    dm = [1, 2, 1]
    kinds_ = ['linear', 'tanh', 'sigmoid']
    fwd = [(0, 1), (0, 2), (1, 2)]
    rec = [(i, j) for i in range(3) for j in range(3)]
    for code in range(part, 1 << 12, parts):
        fs = [e for k, e in enumerate(fwd) if code >> k & 1]
        rs = [e for k, e in enumerate(rec) if code >> (3 + k) & 1]
        spec = dict(recurrent=True, mods=[(names[i], kinds_[i], dm[i], None) for i in range(3)], ins=['p'], outs=['k', 'b'],
                    conns=[R.conn('full', names[i], names[j], name='c%d%d' % (i, j)) for i, j in fs],
                    rec=[R.conn('full', names[i], names[j], name='a%d%d' % (i, j)) for i, j in rs])
        verify(ctx, 'recurrent', spec, dict(forward=fs, recurrent=rs), steps=3)
        ctx.state(code)


# ------------------------------------------------------------------ kinds
MODS = [('linear', 2, None), ('sigmoid', 2, None), ('tanh', 3, None), ('softsign', 2, None), ('relu', 2, None), ('bias', 1, None), ('mult', 2, None), ('gate', 2, None),
        ('dgate', 2, None), ('switch', 2, None), ('mdlstm', 1, dict(dimensions=2)), ('mdlstmp', 2, dict(dimensions=2)), ('mdlstmp', 1, None)]
SEQ = [('linear', 2, None), ('sigmoid', 2, None), ('relu', 2, None), ('softsign', 2, None), ('gate', 1, None), ('gate', 2, None), ('mult', 2, None), ('dgate', 1, None), ('switch', 2, None),
       ('lstm', 1, None), ('lstm', 2, None), ('lstmp', 1, None), ('lstmp', 2, None), ('mdlstmp', 1, None)]
CONNS = ['full', 'notself', 'identity', 'linear', 'perm', 'sfull']


def kinds(ctx, kind):
    for a in MODS:
        for b in MODS:
            da, db = R.dims(*a), R.dims(*b)
            if db[0] == 0:
                continue
            c = mk(kind, 'a', 'b', da[1], db[0])
            if c is None:
                continue
            c2 = mk(kind, 'a', 'b', da[1], db[0], name='k2')
            for conns in ([c], [c, c2]):
                spec = dict(mods=[('a',) + a, ('b',) + b], conns=conns, ins=['a'], outs=['b', 'a'])
                verify(ctx, 'kinds:%s:%s:%s' % (kind, a[0], b[0]), spec, [kind, a, b, len(conns)], steps=2)
                ctx.state((kind, repr(a), repr(b), len(conns)))


def rec_kinds(ctx, kind):
    for m in SEQ:
        di, do = R.dims(*m)
        for target in ('self', 'same', 'in'):
            a, b, n = {'self': ('m', 'm', di), 'same': ('m', 'm2', di), 'in': ('m', 'i', 3)}[target]
            r = mk(kind, a, b, do, n, name='rec')
            if r is None:
                continue
            spec = dict(recurrent=True, mods=[('i', 'linear', 3, None), ('m',) + m, ('m2',) + m, ('bias', 'bias', 1, None), ('o', 'linear', 1, None)],
                        conns=[R.conn('full', 'i', 'm'), R.conn('full', 'bias', 'm'), R.conn('full', 'i', 'm2'), R.conn('full', 'm', 'o'), R.conn('full', 'm2', 'o')],
                        rec=[r], ins=['i'], outs=['o', 'm'])
            for steps in (1, 2, 4):
                verify(ctx, 'rec:%s:%s:%s' % (kind, m[0], target), spec, [kind, m, target, steps], steps=steps)
                ctx.state((kind, m[0], m[1], target, steps))


def slices(ctx, kind, rec):
    n = 3
    spans = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    for s in spans:
        for t in spans:
            sl = s + t
            c = mk(kind, 'a', 'b', s[1] - s[0], t[1] - t[0], sl)
            if c is None:
                continue
            spec = dict(mods=[('a', 'tanh', n, None), ('b', 'sigmoid', n, None)], conns=[c, R.conn('full', 'a', 'b', name='rest')], ins=['a'], outs=['b'])
            if rec:
                spec['recurrent'] = True
                spec['rec'] = [mk(kind, x, y, s[1] - s[0], t[1] - t[0], sl, name='r' + x + y) for x, y in (('b', 'b'), ('b', 'a'))]
            verify(ctx, 'slice:%s:%s' % (kind, rec), spec, sl, steps=3)
            ctx.state((kind, sl))


def perms(ctx):
    for blocks in (2, 3, 4):
        for bs in (1, 2):
            for p in itertools.permutations(range(blocks)):
                n = blocks * bs
                spec = dict(mods=[('a', 'tanh', n, None), ('b', 'tanh', n, None)],
                            conns=[R.conn('perm', 'a', 'b', name='k', permutation=list(p), blocksize=bs)], ins=['a'], outs=['b'])
                verify(ctx, 'perm', spec, [p, bs])
                ctx.state((p, bs))


def nested(ctx):
    ff = dict(mods=[('a', 'tanh', 2, None), ('b', 'gate', 1, None), ('z', 'bias', 1, None)], ins=['a'], outs=['b', 'a'],
              conns=[R.conn('full', 'a', 'b'), R.conn('full', 'z', 'b')])
    deep = dict(mods=[('n', 'net', ff, None), ('q', 'tanh', 2, None)], ins=['n'], outs=['q'], conns=[R.conn('full', 'n', 'q')])
    rnn = dict(ff, recurrent=True, rec=[R.conn('full', 'b', 'a', name='ir')])
    lstm = dict(recurrent=True, mods=[('a', 'linear', 2, None), ('l', 'lstmp', 2, None)], ins=['a'], outs=['l'], conns=[R.conn('full', 'a', 'l')],
                rec=[R.conn('full', 'l', 'l', name='lr')])
    for name, inner in (('ff', ff), ('deep', deep), ('rnn', rnn), ('lstm', lstm)):
        for outer in (False, True):
            if inner.get('recurrent') and not outer:
                continue
            for rec in ((), (('n', 'n'),), (('o', 'n'),), (('n', 'i'), ('o', 'o'))):
                if rec and not outer:
                    continue
                for par in (False, True):
                    spec = dict(mods=[('i', 'linear', 2, None), ('n', 'net', inner, None), ('o', 'tanh', 2, None)],
                                conns=[R.conn('full', 'i', 'n'), R.conn('full', 'n', 'o')], ins=['i'], outs=['o'])
                    if par:
                        spec['mods'].append(('n2', 'net', inner, None))
                        spec['conns'] += [R.conn('full', 'i', 'n2'), R.conn('full', 'n2', 'o')]
                    if outer:
                        spec['recurrent'] = True
                        spec['rec'] = [R.conn('full', a, b, name='r%s%s' % (a, b)) for a, b in rec]
                    for steps in ((1, 2) if not outer else (1, 2, 4)):
                        verify(ctx, 'nested:%s:%s' % (name, outer), spec, [name, outer, rec, par, steps], steps=steps)
                        ctx.state((name, outer, rec, par, steps))


# ------------------------------------------------------------------ histories
def hspec(which):
    if which == 'ff':
        return dict(mods=[('i', 'linear', 2, None), ('h', 'tanh', 2, None), ('g', 'gate', 1, None), ('o', 'switch', 1, None), ('b', 'bias', 1, None)],
                    conns=[R.conn('sfull', 'i', 'h', name='s1', mother='mo', nparams=4), R.conn('full', 'b', 'h'), R.conn('sfull', 'h', 'g', name='s2', mother='mo', nparams=4),
                           R.conn('full', 'g', 'o'), R.conn('linear', 'g', 'o', name='lin')], ins=['i'], outs=['o'])
    return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('l', 'lstmp', 1, None), ('g', 'gate', 1, None), ('o', 'tanh', 1, None)],
                conns=[R.conn('full', 'i', 'l'), R.conn('full', 'l', 'g'), R.conn('full', 'g', 'o')],
                rec=[R.conn('full', 'o', 'l', name='r1'), R.conn('linear', 'o', 'o', name='r2')], ins=['i'], outs=['o'])


OPS = ['s0', 's1', 'clear', 'plain', 'abandon', 'params', 'sort', 'resetall']


def histories(ctx, which, depth, first):
    spec = hspec(which)
    rec = spec.get('recurrent')
    cache = {}

    def want(vals, salt, k):
        if (salt, k) not in cache:
            cache[salt, k] = exact(spec, vals, *sample(k))
        return cache[salt, k]

    def sample(k):
        steps = (3, 2)[k] if rec else 1
        n = R.dims(*spec['mods'][0][1:])[0]
        return [fixed(n, j, k) for j in range(steps)], [fixed(2 if not rec else 1, j, 4 + k) for j in range(steps)]

    def replay(h):
        vals = R.values(spec)
        net, objs = R.build(spec)
        R.install(objs, vals)
        acc = {p: np.zeros(n) for p, n in paths(vals)}
        salt = 0
        hist = [OPS[o] for o in h]
        for o in h:
            op = OPS[o]
            if op in ('s0', 's1'):
                xs, es = sample(int(op[1]))
                gx = sweep(net, spec, xs, es)
                g, wx = want(vals, salt, int(op[1]))
                for p in acc:
                    acc[p] = acc[p] + g[p]
                ctx.check(close(np.array(gx), np.array(wx), TOL), 'history:%s:input' % which, 'input error', got=gx, want=wx, history=hist)
            elif op == 'clear':
                net.resetDerivatives()
                acc = {p: 0 * v for p, v in acc.items()}
            elif op == 'plain':
                for x in sample(0)[0] + sample(1)[0] + sample(0)[0]:
                    net.activate(x)
            elif op == 'abandon':
                # a sweep that is not finished; its derivatives are thrown away
                xs, es = sample(0)
                net.reset()
                for x in xs:
                    net.activate(x)
                net.backActivate(es[0] * 3)
                net.resetDerivatives()
                net.reset()
                acc = {p: 0 * v for p, v in acc.items()}
            elif op == 'params':
                salt += 1
                net._setParameters(np.array([0.3 * ((i * 5 + salt) % 7) - 0.8 for i in range(net.paramdim)]))
                vals = R.read(objs, vals)
            elif op == 'sort':
                net.sortModules()
            elif op == 'resetall':
                net.reset()
        got = R.read(objs, vals, 'derivs')
        for p in acc:
            ctx.check(close(at(got, p), acc[p], TOL), 'history:%s:%s' % (which, p[-1]), 'accumulated derivative', got=at(got, p), want=acc[p], history=hist)
        ctx.trace()
        return h
    history.bfs(ctx, len(OPS), depth, replay, first=first, prune=False)


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('graphs-3', graphs, (3, 0, 1)), ('graphs-4', graphs, (4, 0, 1))]
    p = 8 if deep else 16
    js += [('recurrent-%d' % i, rec_graphs, (i, p)) for i in range(8)]
    js += [('kinds-' + k, kinds, (k,)) for k in CONNS] + [('rec-kinds-' + k, rec_kinds, (k,)) for k in CONNS]
    js += [('slices-%s-%s' % (k, r), slices, (k, r)) for k in CONNS for r in (False, True)]
    js += [('perms', perms, ()), ('nested', nested, ())]
    for w in ('ff', 'rec'):
        for f in range(len(OPS)):
            js.append(('history-%s-%d' % (w, f), histories, (w, 5 if deep else 4, [f])))
    return js
