"""Recurrent networks against explicit unrolling by an independent evaluator (mc/netref.py). Three modules with every subset of forward connections x every
subset of recurrent connections (loops included), run over fixed and enumerated sequences; every connection kind as recurrent connection, every module kind inside,
networks nested in recurrent networks; every history up to the depth bound over inputs, resets, parameter writes, complete backward sweeps and re-sorting,
compared with a fresh unrolling since the last reset; every sequence length up to the bound across several buffer growths. Everything with and without history keeping."""

import itertools
import numpy as np
from mc import netref as R
from mc import history
from mc.canon import close, rnd

ASSUMPTIONS = ['backward passes are followed by a reset before the next sequence, as in every trainer',
               'parameter values and inputs are fixed irregular numbers']


def seq(n, length, salt=0):
    return [np.array([((i * 7 + 3 * j + salt) % 11) / 5.0 - 0.9 for i in range(n)]) for j in range(length)]


def run(ctx, key, net, ref, xs, hist, reset=True):
    if reset:
        net.reset()
        ref.reset()
    ok = True
    ys = []
    for t, x in enumerate(xs):
        y = net.activate(x)
        ctx.trans()
        want = np.real(ref.step(x))
        ys.append(y)
        ok = ctx.check(close(y, want), key, 'step %d differs from the unrolled network' % t, got=y, want=want, history=hist, t=t)
        if not ok:
            return False
    return ok


def verify(ctx, key, spec, hist, lengths=(4, 2), n=None):
    vals = R.values(spec)
    for forget in (False, True):
        k = key + (':forget' if forget else '')
        net, objs = R.build(spec, forget=forget)
        R.install(objs, vals)
        ref = R.Ref(spec, vals)
        # first as built (no reset), then again after resets: nothing of the first run may be left
        for r, l in enumerate(lengths + (lengths[0],)):
            if not run(ctx, k, net, ref, seq(net.indim, l, r), [hist, 'run %d' % r, 'forget %s' % forget], reset=r > 0):
                break
            ctx.trace()
    return net, objs, vals


def topologies(ctx, part, parts):
    names = ['p', 'b', 'k']
    dm = [1, 2, 1]
    kinds = ['linear', 'tanh', 'sigmoid']
    fwd = [(0, 1), (0, 2), (1, 2)]
    rec = [(i, j) for i in range(3) for j in range(3)]
    for code in range(part, 1 << 12, parts):
        fs = [e for k, e in enumerate(fwd) if code >> k & 1]
        rs = [e for k, e in enumerate(rec) if code >> (3 + k) & 1]
        spec = dict(recurrent=True, mods=[(names[i], kinds[i], dm[i], None) for i in range(3)],
                    conns=[R.conn('full', names[i], names[j], name='c%d%d' % (i, j)) for i, j in fs],
                    rec=[R.conn('full', names[i], names[j], name='a%d%d' % (i, j)) for i, j in rs],
                    ins=['p'], outs=['k', 'b'])
        verify(ctx, 'topology', spec, dict(forward=fs, recurrent=rs))
        ctx.state(code)
        if code == part:
            ctx.sample(dict(forward=fs, recurrent=rs))


def cycles(ctx):
    """a cycle of ordinary connections is refused, however many recurrent ones there are"""
    names = 'abc'
    pairs = [(i, j) for i in range(3) for j in range(3)]
    for code in range(1 << 9):
        es = [p for k, p in enumerate(pairs) if code >> k & 1]
        for rec in ((), ((0, 1), (1, 0))):
            spec = dict(recurrent=True, mods=[(n, 'tanh', 1, None) for n in names], ins=['a'], outs=['c'],
                        conns=[R.conn('full', names[i], names[j]) for i, j in es],
                        rec=[R.conn('full', names[i], names[j], name='r%d%d' % (i, j)) for i, j in rec])
            from mc.checks.n01 import cyclic
            try:
                R.build(spec)
                ok = True
            except Exception as e:
                ok = False
                ctx.check('onstruction' in type(e).__name__, 'cycle:error', repr(e), history=[es, rec])
            ctx.check(ok != cyclic(3, es), 'cycle', 'cycle of ordinary connections', history=[es, rec], accepted=ok)
            ctx.trans()
            ctx.state((code, rec))


MODS = [('linear', 2, None), ('tanh', 2, None), ('softsign', 2, None), ('relu', 2, None), ('softmax', 2, None), ('gate', 1, None), ('gate', 2, None),
        ('mult', 2, None), ('dgate', 1, None), ('switch', 2, None), ('lstm', 1, None), ('lstm', 2, None), ('lstmp', 1, None), ('lstmp', 2, None)]


def kinds(ctx, ck):
    from mc.checks.n01 import mk
    for m in MODS:
        di, do = R.dims(*m)
        for target in ('self', 'same', 'in'):
            # recurrent connection from the module under test to itself, to another of its kind, or to the input layer
            a, b = {'self': ('m', 'm'), 'same': ('m', 'm2'), 'in': ('m', 'i')}[target]
            n = {'self': di, 'same': di, 'in': 3}[target]
            r = mk(ck, a, b, do, n, name='rec')
            if r is None:
                continue
            spec = dict(recurrent=True, mods=[('i', 'linear', 3, None), ('m',) + m, ('m2',) + m, ('bias', 'bias', 1, None), ('o', 'linear', 1, None)],
                        conns=[R.conn('full', 'i', 'm'), R.conn('full', 'bias', 'm'), R.conn('full', 'i', 'm2'), R.conn('full', 'm', 'o'), R.conn('full', 'm2', 'o')],
                        rec=[r], ins=['i'], outs=['o', 'm'])
            verify(ctx, 'kinds:%s:%s:%s' % (ck, m[0], target), spec, [ck, m, target], lengths=(5, 3))
            ctx.state((ck, m[0], m[1], target))


def rec_slices(ctx):
    """recurrent connections on every pair of slices; two recurrent connections adding up; shared weights across time and space"""
    n = 3
    spans = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    for s in spans:
        for t in spans:
            for kind in ('full', 'sfull'):
                sl = s + t
                size = (s[1] - s[0]) * (t[1] - t[0])
                ex = {} if kind == 'full' else dict(mother='mo', nparams=size)
                spec = dict(recurrent=True, mods=[('i', 'linear', n, None), ('h', 'tanh', n, None)],
                            conns=[R.conn('full', 'i', 'h', sl, 'k0') if kind == 'full' else R.conn(kind, 'i', 'h', sl, 'k0', **ex), R.conn('identity', 'i', 'h', name='id')],
                            rec=[R.conn(kind, 'h', 'h', sl, 'k1', **ex), R.conn(kind, 'h', 'i', sl, 'k2', **ex)], ins=['i'], outs=['h'])
                verify(ctx, 'slices:' + kind, spec, sl, lengths=(3, 2))
                ctx.state((kind, sl))


def nested(ctx):
    inner_ff = dict(mods=[('a', 'tanh', 2, None), ('b', 'sigmoid', 2, None), ('z', 'bias', 1, None)], ins=['a'], outs=['b'],
                    conns=[R.conn('full', 'a', 'b'), R.conn('full', 'z', 'b')])
    inner_rec = dict(inner_ff, recurrent=True, rec=[R.conn('full', 'b', 'a', name='ir')])
    inner_lstm = dict(recurrent=True, mods=[('a', 'linear', 2, None), ('l', 'lstmp', 2, None)], ins=['a'], outs=['l'], conns=[R.conn('full', 'a', 'l')],
                      rec=[R.conn('full', 'l', 'l', name='lr')])
    deep = dict(mods=[('n', 'net', inner_ff, None), ('q', 'tanh', 2, None)], ins=['n'], outs=['q'], conns=[R.conn('full', 'n', 'q')])
    for name, inner in (('ff', inner_ff), ('rec', inner_rec), ('lstm', inner_lstm), ('deep', deep)):
        for rec in ((), (('n', 'n'),), (('o', 'n'),), (('n', 'i'), ('o', 'o'))):
            spec = dict(recurrent=True, mods=[('i', 'linear', 2, None), ('n', 'net', inner, None), ('o', 'tanh', 2, None)],
                        conns=[R.conn('full', 'i', 'n'), R.conn('full', 'n', 'o')], rec=[R.conn('full', a, b, name='r%s%s' % (a, b)) for a, b in rec], ins=['i'], outs=['o'])
            verify(ctx, 'nested:' + name, spec, [name, rec], lengths=(6, 3))
            ctx.state((name, rec))


def hspec(which):
    if which == 'lstm':
        return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('l', 'lstmp', 1, None), ('g', 'gate', 1, None), ('o', 'linear', 1, None)],
                    conns=[R.conn('full', 'i', 'l'), R.conn('full', 'l', 'g'), R.conn('full', 'g', 'o')],
                    rec=[R.conn('full', 'l', 'l', name='r1'), R.conn('linear', 'o', 'o', name='r2')], ins=['i'], outs=['o'])
    return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('h', 'tanh', 2, None), ('o', 'switch', 1, None), ('b', 'bias', 1, None)],
                conns=[R.conn('full', 'i', 'h'), R.conn('full', 'b', 'h'), R.conn('full', 'h', 'o')],
                rec=[R.conn('full', 'h', 'h', name='r1'), R.conn('full', 'o', 'h', name='r2')], ins=['i'], outs=['o'])


ALPHA = [np.array([0.0]), np.array([1.0]), np.array([-0.6])]


def sequences(ctx, which, length):
    """every input sequence over a three-letter alphabet, all on one network object"""
    spec = hspec(which)
    vals = R.values(spec)
    for forget in (False, True):
        net, objs = R.build(spec, forget=forget)
        R.install(objs, vals)
        ref = R.Ref(spec, vals)
        for w in itertools.product(range(3), repeat=length):
            run(ctx, 'sequence:%s:%s' % (which, forget), net, ref, [ALPHA[i] for i in w], [which, w, forget])
            ctx.state((w, forget))
            ctx.trace()


OPS = ['x0', 'x1', 'reset', 'back', 'params', 'sort', 'dataset', 'rand']


def histories(ctx, which, forget, depth, first):
    spec = hspec(which)
    from pybrain.datasets import SupervisedDataSet

    def replay(h):
        vals = R.values(spec)
        net, objs = R.build(spec, forget=forget)
        R.install(objs, vals)
        ref = R.Ref(spec, vals)
        n = 0
        hist = [OPS[o] for o in h]
        for o in h:
            op = OPS[o]
            if op in ('x0', 'x1'):
                y = net.activate(ALPHA[int(op[1]) + 1])
                want = np.real(ref.step(ALPHA[int(op[1]) + 1]))
                ctx.check(close(y, want), 'history:%s:%s' % (which, forget), 'differs from unrolling since the last reset', got=y, want=want, history=hist)
                n += 1
            elif op == 'reset':
                net.reset()
                ref.reset()
                n = 0
            elif op == 'back':
                if forget or not n:
                    return None
                for t in range(n):
                    net.backActivate(np.array([1., -.5])[:net.outdim])
                net.reset()
                ref.reset()
                n = 0
            elif op in ('params', 'rand'):
                if op == 'params':
                    net._setParameters(np.array([0.3 * ((i * 5 + len(h)) % 7) - 0.8 for i in range(net.paramdim)]))
                else:
                    net.params[:] = [0.25 * ((i * 3 + len(h)) % 9) - 1 for i in range(net.paramdim)]
                ref.p = R.read(objs, vals)
            elif op == 'sort':
                net.sortModules()
            elif op == 'dataset':
                ds = SupervisedDataSet(1, 1)
                for x in ALPHA:
                    ds.addSample(x, [0])
                got = net.activateOnDataset(ds)
                ref.reset()
                want = [np.real(ref.step(x)) for x in ALPHA]
                ref.reset()
                n = 0
                ctx.check(close(got, want), 'history:dataset', 'activateOnDataset', got=got, want=want, history=hist)
        ctx.trace()
        return h
    history.bfs(ctx, len(OPS), depth, replay, first=first, prune=False)


def growth(ctx, which, longest):
    """every length across the buffer doublings, from a new network, after a short run, and after a long run"""
    spec = hspec(which)
    vals = R.values(spec)
    for forget in (False, True):
        for l in range(1, longest + 1):
            net, objs = R.build(spec, forget=forget)
            R.install(objs, vals)
            ref = R.Ref(spec, vals)
            run(ctx, 'length', net, ref, seq(1, l), [which, l, forget], reset=False)
            run(ctx, 'length:again', net, ref, seq(1, longest + 1 - l, 2), [which, l, 'then', longest + 1 - l, forget])
            ctx.state((which, l, forget))
            ctx.trace()


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('topologies-%d' % i, topologies, (i, 8)) for i in range(8)]
    js += [('cycles', cycles, ()), ('slices', rec_slices, ()), ('nested', nested, ())]
    js += [('kinds-' + k, kinds, (k,)) for k in ('full', 'notself', 'identity', 'linear', 'perm', 'subs', 'sfull', 'ssubs')]
    for w in ('plain', 'lstm'):
        js.append(('sequences-' + w, sequences, (w, 7 if deep else 5)))
        js.append(('growth-' + w, growth, (w, 70 if deep else 35)))
        for f in (False, True):
            for o in range(len(OPS)):
                js.append(('history-%s-%s-%d' % (w, f, o), histories, (w, f, 5 if deep else 4, [o])))
    return js
