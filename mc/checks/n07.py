"""Masked parameter containers and modules: every history of mutation, topology mutation, randomisation, writing, copying and spawning up to the depth bound under every outcome of the
mask draws, for every size, limit and starting mask up to the bound; after each step the mask, the visible and the full parameter vector, the memory of switched-off values, the
limit and the independence from all earlier copies (also as functions, for modules) are compared with a plain record; from each state every admissible mask is shown reachable.
Cheap copies of modules likewise. Decompositions by neuron: every topology of the bound with slices, loops, gates and both styles, pieces compared with the weights' end points."""

import itertools
import numpy as np
from mc import rng, netref as R
from mc.choice import explore, Horizon
from mc.canon import close

ASSUMPTIONS = ['random reals are drawn from a menu with values on both sides of the thresholds (1/2n, 3/2n, ...), normal draws from a script of distinct values',
               'copies of masked parameters share their container by design: the container shows the values of the copy changed or activated last']

STEP = 0.25


class Script(object):
    """distinct nonzero normal draws while randomising, a constant one while mutating"""

    def __init__(self):
        self.n = 0
        self.const = None

    def __call__(self):
        if self.const is not None:
            return self.const
        self.n += 1
        return 0.1 + 0.013 * self.n


class Tracked(object):
    """what is known about one masked container: the mask and all values seen so far (None: never seen)"""

    def __init__(self, obj, key, n, limit):
        self.o, self.key, self.n, self.limit = obj, key, n, limit
        self.vals = [None] * n
        self.mask = None

    def clone(self, obj):
        t = Tracked(obj, self.key, self.n, self.limit)
        t.vals, t.mask = list(self.vals), self.mask
        return t


def visible(o):
    o.returnZeros = True
    full = np.array(o.params, dtype=float)
    o.returnZeros = False
    return full


def inspect(ctx, t, what, hist, mine=True):
    """compare with the record; learn values seen for the first time"""
    o, key, n = t.o, t.key, t.n
    mask = tuple(bool(b) for b in o.mask)
    full = visible(o)
    ok = ctx.check(len(mask) == n and 1 <= sum(mask) <= t.limit, key + ':limit', 'the number of enabled parameters is not between one and the limit', mask=mask, limit=t.limit, after=what, history=hist)
    ok &= ctx.check(len(full) == n and all(full[i] == 0 for i in range(n) if not mask[i]), key + ':zero', 'a parameter that is off is not zero', mask=mask, got=full, after=what, history=hist)
    ok &= ctx.check(not mine or close(o.pcontainer.params, full), key + ':container', 'the container does not hold the masked parameters', got=o.pcontainer.params, want=full, after=what, history=hist)
    p = np.array(o.params)
    ok &= ctx.check(o.paramdim == sum(mask) and len(p) == sum(mask) and close(p, [full[i] for i in range(n) if mask[i]]), key + ':params', 'the parameter vector is not that of the enabled parameters', got=p, full=full, after=what, history=hist)
    o.returnZeros = True
    ok &= ctx.check(o.paramdim == n and len(o) == n, key + ':paramdim', 'wrong dimension with zeros included', after=what, history=hist)
    o.returnZeros = False
    if not ok:
        return False
    if t.mask is not None:
        ok &= ctx.check(mask == t.mask, key + ':mask', 'the mask changed', got=mask, want=t.mask, after=what, history=hist)
    t.mask = mask
    for i in range(n):
        if mask[i]:
            if t.vals[i] is not None:
                ok &= ctx.check(abs(full[i] - t.vals[i]) < 1e-9, key + ':value', 'a parameter does not have the value it should have', index=i, got=full[i], want=t.vals[i], after=what, history=hist)
            t.vals[i] = full[i]
    return ok


OPS = ['mutate', 'topology', 'randomize', 'copy', 'swap', 'set', 'spawn']


def maker(kind, n):
    from pybrain.structure.parametercontainer import ParameterContainer
    from pybrain.structure.evolvables.maskedparameters import MaskedParameters
    from pybrain.structure.evolvables.maskedmodule import MaskedModule
    from pybrain.structure import FeedForwardNetwork, LinearLayer, FullConnection
    if kind == 'params':
        return lambda **a: MaskedParameters(ParameterContainer(n), **a)

    def module(**a):
        net = FeedForwardNetwork()
        i, o = LinearLayer(n), LinearLayer(1)
        net.addInputModule(i)
        net.addOutputModule(o)
        net.addConnection(FullConnection(i, o))
        net.sortModules()
        return MaskedModule(net, **a)
    return module


def functions(ctx, ts, hist):
    """every module computes its own function, in any order of use"""
    for order in (ts, ts[::-1]):
        for t in order:
            o = t.o
            full = visible(o)
            x = np.arange(1., t.n + 1)
            want = full.dot(x)
            ok = ctx.check(close(o.activate(x), [want]), t.key + ':function', 'a masked module does not compute the function of its own parameters', got=o.activate(x), want=want, history=hist)
            ok and ctx.check(close(o.backActivate(np.ones(1)), full), t.key + ':backward', 'a masked module back-propagates with the parameters of another', history=hist)
            ctx.trans()


def masked(ctx, kind, n, limit, depth):
    mk = maker(kind, n)
    key = 'masked-' + kind
    menu = [(2 * k + 1.0) / (2 * n) for k in range(n)] if n > 1 else [0.25, 0.75]
    args = dict(maskFlipProbability=0.3, mutationStdev=STEP, stdParams=1.0)
    if limit is not None:
        args['maxComplexity'] = limit
    top = n if limit is None else limit
    seen = {}

    def body(ch):
        script = Script()
        with rng.control(ch, unit=[0.25], gauss=script):
            t = Tracked(mk(**args), key, n, top)
        with rng.control(ch, unit=menu, gauss=script):
            ts, hist = [t], []
            ok = inspect(ctx, t, 'construction', hist)
            for d in range(depth):
                if not ok:
                    return
                op = OPS[ch.pick(len(OPS))]
                if op == 'swap' and len(ts) < 2:
                    return
                if len(ch.taken) and op in ('copy', 'spawn') and len(ts) > 2:
                    return
                hist.append(op)
                ctx.trans()
                old = (t.mask, list(t.vals))
                if op == 'mutate':
                    script.const = 1.0
                    t.o.mutate()
                    script.const = None
                    t.vals = [None if v is None else v + STEP for v in t.vals]
                elif op == 'topology':
                    a = len(ch.taken)
                    ch.horizon = a + 1 + n + max(1, n - top)    # at most one repeated draw
                    t.o.topologyMutate()
                    ch.horizon = 100000
                    if all(menu[c] >= 0.3 for c in ch.taken[a:]):
                        ctx.check(tuple(map(bool, t.o.mask)) == t.mask, key + ':flip', 'the mask changed although no draw fell below the flip probability', got=t.o.mask, want=t.mask, history=hist)
                    t.mask = None
                elif op == 'randomize':
                    t.o.randomize()
                    t.mask, before, t.vals = None, t.vals, [None] * n
                    full = visible(t.o)
                    ctx.check(all(full[i] != before[i] for i in range(n) if full[i]), key + ':fresh', 'randomising kept a parameter', got=full, before=before, history=hist)
                elif op == 'copy':
                    c = t.clone(t.o.copy())
                    ctx.check(type(c.o) is type(t.o) and c.o is not t.o and c.o.maxComplexity == t.o.maxComplexity, key + ':copy', 'the copy is of another kind', history=hist)
                    ts.append(c)
                    t = c
                elif op == 'spawn':
                    o = t.o.newSimilarInstance()
                    c = Tracked(o, key, n, top)
                    ts.append(c)
                    t = c
                elif op == 'swap':
                    t = ts[0]
                    ts = ts[1:] + ts[:1]
                else:
                    x = [3.0 + i + d / 8. for i in range(sum(t.mask))]
                    t.o._setParameters(np.array(x))
                    it = iter(x)
                    t.vals = [next(it) if m else v for m, v in zip(t.mask, t.vals)]
                for u in ts:
                    ok &= inspect(ctx, u, op if u is t else 'an operation on a copy', hist, mine=u is t and op not in ('copy', 'swap'))
                if ok and op == 'topology':
                    ctx.check(all(v is None or w is None or v == w for v, w in zip(old[1], t.vals)), key + ':hidden', 'topology mutation changed values', history=hist)
                # values do not steer anything: a state is what is on and what has been seen of each copy
                k = (d, ts.index(t), tuple((u.mask, tuple(v is None for v in u.vals)) for u in ts))
                ctx.state((kind, n, limit) + k)
                if seen.setdefault(k, tuple(ch.taken)) != tuple(ch.taken):
                    break
            if kind == 'module':
                functions(ctx, ts, hist)
            ctx.trace()

    res = explore(body)
    ctx.outcome('cut') if res.cut else None


def reach(ctx, n):
    """from every state, every admissible mask and no other is produced"""
    for kind in ('params', 'module'):
        mk = maker(kind, n)
        menu = [(2 * k + 1.0) / (2 * n) for k in range(n)] if n > 1 else [0.25, 0.75]
        for limit in [None] + list(range(1, n + 1)):
            top = n if limit is None else limit
            every = {m for m in itertools.product([False, True], repeat=n) if 1 <= sum(m) <= top}
            a = {} if limit is None else dict(maxComplexity=limit)
            for op in ('construct', 'randomize', 'topology'):
                for start in (sorted(every) if op == 'topology' else [None]):
                    seen = set()

                    def body(ch):
                        with rng.control(ch, unit=[0.75] if op != 'construct' else menu, gauss=Script()):
                            o = mk(maskFlipProbability=0.3, maskOnProbability=0.5, **a)
                        if op != 'construct':
                            with rng.control(ch, unit=menu, gauss=Script()):
                                if start is not None:
                                    o.mask[:] = start
                                ch.horizon = len(ch.taken) + 1 + n + max(1, n - top)
                                o.randomize() if op == 'randomize' else o.topologyMutate()
                        seen.add(tuple(map(bool, o.mask)))
                        ctx.trans()
                    explore(body)
                    ctx.check(seen == every, 'reach:' + op, 'not exactly the admissible masks are produced', kind=kind, n=n, limit=limit, start=start, missing=sorted(every - seen)[:4], extra=sorted(seen - every)[:4])
                    ctx.state((kind, n, limit, op, start))
                    ctx.trace()
            # the probability of a bit being on
            for p, u in [(0.9, 0.8), (0.9, 0.95), (0.1, 0.05), (0.1, 0.2), (1.0, 0.999), (0.0, 0.0)]:
                def one(ch):
                    with rng.control(ch, unit=[u], gauss=Script()):
                        o = mk(maskOnProbability=p, **a)
                    k = sum(map(bool, o.mask))
                    ctx.check(k == (top if u < p else 1), 'reach:probability', 'the bits that are on do not follow the probability of being on', probability=p, draw=u, limit=limit, n=n, on=k)
                    ctx.trans()
                explore(one)


# ---------------------------------------------------------------- cheap copies
def cheap(ctx, depth, first):
    from pybrain.structure.evolvables.cheaplycopiable import CheaplyCopiable
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork
    F = lambda *a, **k: R.conn('full', *a, **k)
    specs = [dict(mods=[('a', 'linear', 2, None), ('b', 'tanh', 1, None), ('c', 'linear', 1, None)], ins=['a'], outs=['c'], conns=[F('a', 'b', name='x'), F('b', 'c', name='y'), F('a', 'c', name='z')]),
             dict(mods=[('a', 'linear', 1, None), ('b', 'tanh', 2, None)], ins=['a'], outs=['b'], conns=[F('a', 'b', name='x')], rec=[F('b', 'b', name='r')], recurrent=True)]
    ops = ['mutate', 'randomize', 'copy', 'swap', 'write', 'set', 'base', 'spawn', 'run']
    for spec in specs:
        n = sum(R.containers(spec).values())
        dim = 2 if spec is specs[0] else 1
        X = [np.arange(1., dim + 1) * s for s in (0.3, -0.7, 1.1)]

        def body(ch):
            script = Script()
            with rng.control(ch, unit=[0.5], gauss=script):
                net, objs = R.build(spec)
                c = CheaplyCopiable(net)
                ps = [(c, np.array(net.params))]
                hist = []
                for d in range(depth):
                    op = ops[ch.pick(len(ops))] if d else first
                    hist.append(op)
                    o, p = ps[0]
                    ctx.trans()
                    if op == 'mutate':
                        script.const = 1.0
                        o.mutate()
                        script.const = None
                        ps[0] = (o, p + o.mutationStd)
                    elif op == 'randomize':
                        o.randomize()
                        ctx.check(not np.any(np.array(o.params) == p), 'cheap:randomize', 'randomising kept a parameter', history=hist)
                        ps[0] = (o, np.array(o.params))
                    elif op in ('copy', 'spawn'):
                        if len(ps) > 2:
                            return
                        q = o.copy() if op == 'copy' else o.newSimilarInstance()
                        ctx.check(type(q) is CheaplyCopiable and q is not o and (q.indim, q.outdim, q.paramdim) == (o.indim, o.outdim, n), 'cheap:copy', 'the copy is of another kind', history=hist)
                        ps.insert(0, (q, p if op == 'copy' else np.array(q.params)))
                    elif op == 'swap':
                        if len(ps) < 2:
                            return
                        ps = ps[1:] + ps[:1]
                    elif op == 'write':
                        o.params[d % n] += 2.0
                        p = p.copy()
                        p[d % n] += 2.0
                        ps[0] = (o, p)
                    elif op == 'set':
                        p = np.array([(i * 3 % 5) / 4. - 0.4 + d for i in range(n)])
                        o._setParameters(p.copy())
                        ps[0] = (o, p)
                    elif op == 'base':
                        ctx.check(close(o.getBase().params, p), 'cheap:base', 'the base does not have the parameters of the copy it is taken from', history=hist)
                    else:
                        o.reset()
                        for x in X:
                            o.activate(x)
                        o.reset()
                    for q, v in ps:
                        ctx.check(close(q.params, v) and len(q) == n, 'cheap:params', 'a copy does not have its own parameters', got=q.params, want=v, history=hist)
                    ctx.state((repr(hist), len(ps), spec is specs[0]))
                for q, v in ps:
                    vals, i = {}, 0
                    base = {}
                    for m in net._containerIterator():
                        base[m.name] = v[i:i + m.paramdim]
                        i += m.paramdim
                    q.reset()
                    ys = [np.array(q.activate(x)) for x in X]
                    q.reset()
                    want = [np.real(y) for y in R.Ref(spec, base).run(X)]
                    ctx.trans(len(X))
                    ctx.check(close(np.array(ys), np.array(want)), 'cheap:function', 'a copy does not compute the function of its own parameters', got=ys, want=want, history=hist)
                ctx.trace()
        explore(body)


# ---------------------------------------------------------------- decomposition by neuron
def whose(kind, dim, index, side):
    """the neuron a position of the input or output buffer belongs to"""
    return index % dim if kind.startswith('lstm') or kind.startswith('mdlstm') else index


def expected(spec, net, objs, esp):
    """piece of each neuron: the sorted parameter values"""
    md = {m[0]: m for m in spec['mods']}
    own = {}
    for c in list(spec['conns']) + list(spec.get('rec', ())):
        kind, src, dst, sl, extra = c
        o = objs[extra['name']]
        a, b, e, f = sl or (0, None, 0, None)
        a, e = a or 0, e or 0
        ni = (R.dims(*md[src][1:])[1] if b is None else b) - a
        no = (R.dims(*md[dst][1:])[0] if f is None else f) - e
        W = np.array(o.params).reshape(no, ni)
        for r in range(no):
            for k in range(ni):
                if esp and dst in spec['outs']:
                    w = (src, whose(md[src][1], md[src][2], a + k, 'out'))
                else:
                    w = (dst, whose(md[dst][1], md[dst][2], e + r, 'in'))
                own.setdefault(w, []).append(W[r, k])
    return {k: tuple(sorted(v)) for k, v in own.items()}


def decomposed(ctx, spec, hist, convert):
    from pybrain.structure.networks.neurondecomposable import NeuronDecomposableNetwork, FeedForwardDecomposableNetwork, RecurrentDecomposableNetwork
    rec = bool(spec.get('recurrent'))
    for esp in (True, False):
        for way in (('convert', 'direct') if convert else ('direct',)):
            cls = RecurrentDecomposableNetwork if rec else FeedForwardDecomposableNetwork
            if way == 'direct':
                net, objs = R.build(spec, cls=type('D', (cls,), dict(espStyleDecomposition=esp)))
            else:
                plain, objs = R.build(spec)
                R.install(objs, R.values(spec))
                X = [np.array([(i * 3 + j * 5) % 7 / 3.0 - 1 for i in range(plain.indim)]) for j in range(3)]
                plain.reset()
                before = [np.array(plain.activate(x)) for x in X]
                dim = plain.paramdim
                net = NeuronDecomposableNetwork.convertNormalNetwork(plain)
                ok = ctx.check(type(net) is cls and net.name == plain.name and net.paramdim == dim and (net.indim, net.outdim) == (plain.indim, plain.outdim), 'decompose:convert', 'conversion gives another kind of network', history=hist)
                if not ok:
                    continue
                net.reset()
                after = [np.array(net.activate(x)) for x in X]
                ctx.check(close(np.array(before), np.array(after)), 'decompose:convert:function', 'conversion changed the function', history=hist)
                if not esp:
                    net.espStyleDecomposition = False
                    net.sortModules()
            n = net.paramdim
            net.params[:] = [1 + i for i in range(n)]
            h = [hist, esp, way]
            ctx.trans()
            want = expected(spec, net, objs, esp)
            got = net.getDecomposition()
            pieces = [tuple(sorted(p)) for p in got]
            ctx.check(sorted(pieces) == sorted(want.values()), 'decompose:pieces', 'a piece is not the parameters of its neuron', got=sorted(pieces), want=sorted(want.values()), history=h)
            ctx.check(sorted(itertools.chain(*pieces)) == [1 + i for i in range(n)], 'decompose:partition', 'the pieces do not partition the parameters', got=pieces, history=h)
            # write back
            net.params[:] = 0
            net.setDecomposition(got)
            ctx.check(close(net.params, [1 + i for i in range(n)]), 'decompose:roundtrip', 'writing the pieces back gives another vector', got=net.params, history=h)
            for k in range(len(got)):
                new = [np.array(p) for p in got]
                new[k] = new[k] + 100
                net.setDecomposition(new)
                ctx.trans()
                changed = sorted(x - 100 for x in net.params if x > 100)
                ctx.check(tuple(changed) == pieces[k] and [close(a, b) for a, b in zip(net.getDecomposition(), new)] == [True] * len(new), 'decompose:write', 'writing one piece does not change exactly its parameters', piece=k, got=net.params, history=h)
            # the parts see what is written
            R_vals = R.read(objs, R.values(spec))
            net.params[:] = [((i * 7) % 5) / 4. - 0.5 for i in range(n)]
            net.reset()
            X = [np.array([(i * 3 + j * 5) % 7 / 3.0 - 1 for i in range(net.indim)]) for j in range(3)]
            net.setDecomposition([p * 0.5 for p in net.getDecomposition()])
            ys = [np.array(net.activate(x)) for x in X]
            w = [np.real(y) for y in R.Ref(spec, R.read(objs, R.values(spec))).run(X)]
            ctx.check(close(np.array(ys), np.array(w)), 'decompose:function', 'the network does not use the pieces written', got=ys, want=w, history=h)
            ctx.trace()


def decompose(ctx, part, parts):
    F = lambda *a, **k: R.conn('full', *a, **k)
    n = 0
    # chains and triangles with biases, gates, loops
    for kinds in itertools.product(['linear', 'sigmoid', 'lstm'], ['tanh', 'lstm']):
        for sizes in itertools.product([1, 2], repeat=3):
            for skip, bias, rec in itertools.product([False, True], repeat=3):
                n += 1
                if n % parts != part:
                    continue
                mods = [('a', 'linear', sizes[0], None), ('b', kinds[0], sizes[1], None), ('c', kinds[1], sizes[2], None)]
                cs = [F('a', 'b', name='ab'), F('b', 'c', name='bc')]
                if skip:
                    cs.append(F('a', 'c', name='ac'))
                if bias:
                    mods.append(('d', 'bias', 1, None))
                    cs += [F('d', 'b', name='db'), F('d', 'c', name='dc')]
                r = rec or any(k.startswith('lstm') for k in kinds)
                spec = dict(mods=mods, ins=['a'], outs=['c'], conns=cs, recurrent=r)
                if rec:
                    spec['rec'] = [F('b', 'b', name='rb'), F('c', 'b', name='rc')]
                ctx.state((kinds, sizes, skip, bias, rec))
                decomposed(ctx, spec, dict(kinds=kinds, sizes=sizes, skip=skip, bias=bias, rec=rec), True)
    # slices
    for a, b in [(a, b) for a in range(3) for b in range(a + 1, 4)]:
        for c, d in [(c, d) for c in range(3) for d in range(c + 1, 4)]:
            n += 1
            if n % parts != part:
                continue
            for hidden in (False, True):
                mods = [('a', 'linear', 3, None), ('b', 'tanh', 3, None)]
                cs = [R.conn('full', 'a', 'b', (a, b, c, d), name='ab')]
                if hidden:
                    mods.append(('c', 'linear', 2, None))
                    cs.append(R.conn('full', 'b', 'c', (c, d, 0, 1), name='bc'))
                spec = dict(mods=mods, ins=['a'], outs=['c' if hidden else 'b'], conns=cs)
                ctx.state((a, b, c, d, hidden))
                decomposed(ctx, spec, dict(slices=(a, b, c, d), hidden=hidden), True)


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = []
    for kind in ('params', 'module'):
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            for limit in [None] + list(range(1, n + 1)):
                depth = {1: 5, 2: 4 if deep else 3, 3: 3 if deep else 2, 4: 2}[n]
                js.append(('masked-%s-%d-%s' % (kind, n, limit), masked, (kind, n, limit, depth)))
    js += [('reach-%d' % n, reach, (n,)) for n in ((1, 2, 3, 4) if deep else (1, 2, 3))]
    js += [('cheap-%s' % op, cheap, (5 if deep else 3, op)) for op in ['mutate', 'randomize', 'copy', 'write', 'set', 'base', 'spawn', 'run']]
    js += [('decompose-%d' % i, decompose, (i, 4)) for i in range(4)]
    return js
