"""Every network constructor over its whole option space up to the bound: the modules (names, kinds, sizes, order of inputs and outputs), the connections (end points, slices, kind,
nothing missing, nothing extra), exactly which connections share weights, the number of parameters and their initialisation are compared with an independent construction, and the
output with a direct recursion over the board, sequence or mesh, in which each unit sees its defined neighbours only. Mesh views are checked unit by unit against row-major order."""

import itertools
import numpy as np
from mc import rng, netref as R
from mc.canon import close

ASSUMPTIONS = ['optional accelerated (arac) networks are not installed and not covered', 'swiping networks have at least two units per dimension, as they demand']


# ---------------------------------------------------------------- structure
def con(c):
    return (c.inmod.name, c.outmod.name, c.inSliceFrom, c.inSliceTo, c.outSliceFrom, c.outSliceTo)


def summary(net):
    cs = [c for l in net.connections.values() for c in l]
    return cs, list(getattr(net, 'recurrentConns', []))


def shared(ctx, key, net, want, labels, mods, ins, outs, hist, sizes):
    """want: multiset of (label, src, dst, inFrom, inTo, outFrom, outTo); connections share weights iff labels are equal (None: no weights)"""
    cs, rec = summary(net)
    ok = ctx.check(not rec, key + ':recurrent', 'unexpected recurrent connections', history=hist)
    got = {m.name: (type(m).__name__, m.indim, m.outdim) for m in net.modules}
    ok &= ctx.check(got == mods and len(list(net.modules)) == len(mods), key + ':modules', 'wrong modules', got=got, want=mods, history=hist)
    ok &= ctx.check([m.name for m in net.inmodules] == ins and [m.name for m in net.outmodules] == outs, key + ':io', 'wrong input or output modules',
                    got=([m.name for m in net.inmodules], [m.name for m in net.outmodules]), history=hist)
    g, w = sorted(map(con, cs)), sorted(x[1:] for x in want)
    ok &= ctx.check(g == w, key + ':connections', 'wrong connections', extra=[x for x in g if x not in w][:4], missing=[x for x in w if x not in g][:4], history=hist)
    if not ok:
        return None
    # sharing: parallel connections with equal end points need an assignment, end points are distinct here except where labels are too
    lab = {}
    for x in want:
        lab.setdefault(x[1:], []).append(x[0])
    byl, bym, weights = {}, {}, {}
    for c in cs:
        l = lab[con(c)].pop(0)
        if l is None:
            ok &= ctx.check(c.paramdim == 0, key + ':weights', 'a plain connection has weights', conn=con(c), history=hist)
            continue
        mo = getattr(c, 'mother', c)
        byl.setdefault(l, set()).add(id(mo))
        bym.setdefault(id(mo), set()).add(l)
        weights[l] = mo
    ok &= ctx.check(all(len(v) == 1 for v in byl.values()), key + ':shared', 'connections that share weights by construction do not', labels=[l for l in byl if len(byl[l]) > 1], history=hist)
    ok &= ctx.check(all(len(v) == 1 for v in bym.values()), key + ':separate', 'connections share weights that are declared separate', labels=[v for v in bym.values() if len(v) > 1], history=hist)
    ok &= ctx.check({l: weights[l].paramdim for l in byl} == {l: sizes[l] for l in byl}, key + ':sizes', 'wrong number of weights', got={str(l): weights[l].paramdim for l in byl}, history=hist)
    if ok:
        n = sum(sizes[l] for l in byl) + sum(m.paramdim for m in net.modules)
        ok = ctx.check(net.paramdim == n and len(net.params) == n, key + ':paramdim', 'not every parameter is registered exactly once', got=net.paramdim, want=n, history=hist)
        if key != 'resized:new':
            initialised(ctx, key, net, hist)
    ctx.trans(len(cs))
    return weights if ok else None


def initialised(ctx, key, net, hist):
    if net.paramdim:
        ctx.check(all(net.params) and len(set(net.params)) == net.paramdim and np.isfinite(net.params).all(), key + ':initialised', 'parameters are not initialised at random', got=net.params, history=hist)
        ctx.check(not np.any(net.derivs), key + ':derivs', 'derivatives of a new network are not zero', history=hist)


def fill(net):
    net.params[:] = [(((i + 1) * 7919) % 1009) / 504. - 1 for i in range(net.paramdim)]


def probes(n):
    return [np.array([((i * 7 + 3 * j + j * i * i) % 11) / 5.0 - 0.9 for i in range(n)]) for j in range(2)]


def wmat(w, n, m):
    return np.array(w.params).reshape(n, m)


ACT = {'TanhLayer': np.tanh, 'SigmoidLayer': R.sig, 'LinearLayer': lambda x: x}


# ---------------------------------------------------------------- buildNetwork
def build(ctx, sizes, lstm):
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain import structure as s
    hidden = [s.LSTMLayer] if lstm else [None, s.TanhLayer, s.LinearLayer]
    tri = [None, True, False]
    for layers in sizes:
        for bias, outbias, rec, peep in itertools.product(tri, tri, tri, tri if lstm else [None, True]):
            for hc in hidden:
                for oc in [None, s.SoftmaxLayer, s.TanhLayer]:
                    o = dict(bias=bias, outputbias=outbias, recurrent=rec, peepholes=peep, hiddenclass=hc, outclass=oc)
                    o = {k: v for k, v in o.items() if v is not None}
                    hist = dict(layers=layers, **{k: getattr(v, '__name__', v) for k, v in o.items()})
                    ctx.state((layers, bias, outbias, rec, peep, str(hc), str(oc)))
                    net = buildNetwork(*layers, **o)
                    ctx.trans()
                    B = bias is not False
                    hname = 'LSTMLayer' if lstm else hc.__name__ if hc else 'SigmoidLayer'
                    H = ['hidden%d' % i for i in range(len(layers) - 2)]
                    f = 4 if lstm else 1
                    want = {'in': ('LinearLayer', layers[0], layers[0]), 'out': (oc.__name__ if oc else 'LinearLayer', layers[-1], layers[-1])}
                    for h, n in zip(H, layers[1:-1]):
                        want[h] = (hname, f * n, n)
                    if B:
                        want['bias'] = ('BiasUnit', 0, 1)
                    got = {m.name: (type(m).__name__, m.indim, m.outdim) for m in net.modules}
                    ok = ctx.check(got == want and len(list(net.modules)) == len(want), 'build:modules', 'wrong layers', got=got, want=want, history=hist)
                    chain = ['in'] + H + ['out']
                    edges = list(zip(chain, chain[1:]))
                    if B:
                        edges += [('bias', h) for h in H]
                        if outbias is not False:
                            edges.append(('bias', 'out'))
                    cs, rc = summary(net)
                    full = lambda a, b: (a, b, 0, want[a][2], 0, want[b][1])
                    g = sorted((type(c).__name__,) + con(c) for c in cs)
                    ok &= ctx.check(g == sorted(('FullConnection',) + full(a, b) for a, b in edges), 'build:connections', 'wrong connections', got=g, history=hist)
                    redges = [(h, h) for h in H] if lstm else []
                    ok &= ctx.check(sorted((type(c).__name__,) + con(c) for c in rc) == [('FullConnection',) + full(a, b) for a, b in redges], 'build:recurrent', 'wrong recurrent connections', history=hist)
                    ok &= ctx.check(type(net).__name__ == ('RecurrentNetwork' if rec or (lstm and lstm is not None) else 'FeedForwardNetwork'), 'build:class', 'wrong kind of network', got=type(net).__name__, history=hist)
                    ok &= ctx.check([m.name for m in net.inmodules] == ['in'] and [m.name for m in net.outmodules] == ['out'], 'build:io', 'wrong input or output layer', history=hist)
                    n = sum(want[a][2] * want[b][1] for a, b in edges + redges)
                    if lstm:
                        ok &= ctx.check(all(bool(net[h].peepholes) == bool(peep) for h in H), 'build:peepholes', 'peepholes differ from what was asked', history=hist)
                        n += sum(3 * k for k in layers[1:-1]) if peep else 0
                    ok &= ctx.check(net.paramdim == n, 'build:paramdim', 'not every weight is registered exactly once', got=net.paramdim, want=n, history=hist)
                    if not ok:
                        continue
                    initialised(ctx, 'build', net, hist)
                    ctx.trace()
                    if lstm or (rec and bias is None):
                        continue
                    w = {(c.inmod.name, c.outmod.name): np.array(c.params).reshape(c.outdim, c.indim) for c in cs}
                    for x in probes(layers[0]):
                        y = x
                        for a, b in zip(chain, chain[1:]):
                            y = w[a, b].dot(y)
                            if ('bias', b) in w:
                                y = y + w['bias', b][:, 0]
                            t = want[b][0]
                            y = np.exp(y) / np.exp(y).sum() if t == 'SoftmaxLayer' else ACT[t](y)
                        ctx.trans()
                        ctx.check(close(net.activate(x), y), 'build:function', 'the network does not compute the composition of its layers', got=net.activate(x), want=y, history=hist)


def refused(ctx):
    from pybrain.tools.shortcuts import buildNetwork, NetworkError
    from pybrain.structure import LSTMLayer

    def refuses(key, exc, what, f):
        try:
            f()
            ctx.fail('refuse:' + key, what + ' is accepted')
        except exc:
            pass
        ctx.trans()
        ctx.trace()
        ctx.state(key)
    for l in ((), (1,), (3,)):
        refuses('layers%d' % len(l), NetworkError, 'a network of less than two layers', lambda: buildNetwork(*l))
    for k in ('biased', 'hidden', 'Recurrent', 'hiddenClass', 'x'):
        refuses('option-' + k, NetworkError, 'an unknown option', lambda: buildNetwork(2, 2, **{k: True}))
    refuses('fast', NetworkError, 'a fast network without its library', lambda: buildNetwork(2, 2, fast=True))
    refuses('lstm', SystemExit, 'several LSTM layers', lambda: buildNetwork(2, 2, 2, 2, hiddenclass=LSTMLayer))


def parts(ctx, most):
    """the helper that takes parts of ready layers"""
    from pybrain.tools.shortcuts import _buildNetwork
    from pybrain import structure as s
    kinds = [s.LinearLayer, s.SigmoidLayer, s.TanhLayer]
    for lens in itertools.chain.from_iterable(itertools.product([1, 2, 3], repeat=k) for k in range(1, most + 1)):
        if sum(lens) < 2:
            continue
        for bias in (None, False, True):
            i, layout = 0, []
            for p, k in enumerate(lens):
                layout.append(tuple(kinds[(i + j) % 3](2 + p % 2, name='l%d' % (i + j)) for j in range(k)))
                i += k
            hist = dict(parts=lens, bias=bias)
            net = _buildNetwork(*layout, **({} if bias is None else dict(bias=bias)))
            ctx.state((lens, bias))
            flat = [l for p in layout for l in p]
            first = [p[0] for p in layout[1:]]
            edges, nbias = [], 0
            for a, b in zip(flat, flat[1:]):
                edges.append(('FullConnection' if any(b is f for f in first) else 'IdentityConnection', a.name, b.name))
            got = sorted((type(c).__name__, c.inmod.name, c.outmod.name) for c in summary(net)[0] if type(c.inmod).__name__ != 'BiasUnit')
            ctx.check(got == sorted(edges), 'parts:connections', 'wrong connections between the layers', got=got, want=sorted(edges), history=hist)
            bs = sorted((type(c.inmod).__name__, id(c.inmod) and 1, c.outmod.name) for c in summary(net)[0] if type(c.inmod).__name__ == 'BiasUnit')
            ctx.check(bs == sorted(('BiasUnit', 1, f.name) for f in first) if bias else not bs, 'parts:bias', 'wrong biases', got=bs, history=hist)
            ctx.check(len({id(c.inmod) for c in summary(net)[0] if type(c.inmod).__name__ == 'BiasUnit'}) == (len(first) if bias else 0), 'parts:bias', 'the biases are not one unit per full connection', history=hist)
            ctx.check([m is flat[0] for m in net.inmodules] == [True] and [m is flat[-1] for m in net.outmodules] == [True], 'parts:io', 'wrong input or output layer', history=hist)
            ctx.check(net.paramdim == sum(c.paramdim for c in summary(net)[0]) and len(list(net.modules)) == len(flat) + (len(first) if bias else 0), 'parts:modules', 'modules or parameters are missing or superfluous', history=hist)
            initialised(ctx, 'parts', net, hist)
            w = {(c.inmod.name, c.outmod.name): c for c in summary(net)[0]}
            bias_to = {c.outmod.name: np.array(c.params) for c in summary(net)[0] if type(c.inmod).__name__ == 'BiasUnit'}
            for x in probes(flat[0].indim):
                y = ACT[type(flat[0]).__name__](x)
                for a, b in zip(flat, flat[1:]):
                    c = w[a.name, b.name]
                    y = (np.array(c.params).reshape(c.outdim, c.indim).dot(y) if c.paramdim else y) + bias_to.get(b.name, 0)
                    y = ACT[type(b).__name__](y)
                ctx.trans()
                ctx.check(close(net.activate(x), y), 'parts:function', 'wrong function', got=net.activate(x), want=y, history=hist)
            ctx.trace()


# ---------------------------------------------------------------- meshes
def meshes(ctx, most, size):
    from pybrain.structure import ModuleMesh
    from pybrain import structure as s
    from pybrain.structure.moduleslice import ModuleSlice
    for nd in range(1, most + 1):
        for dims in itertools.product(range(1, size + 1), repeat=nd):
            coords = list(itertools.product(*map(range, dims)))
            hist = dict(dims=dims)
            ctx.state(dims)
            m = ModuleMesh.constructWithLayers(s.TanhLayer, 2, dims, 'mesh')
            l = list(m)
            ctx.check(len(l) == len(coords) and len(set(map(id, l))) == len(l) and all(type(x) is s.TanhLayer and x.indim == 2 for x in l), 'mesh:layers', 'not one layer of its own per coordinate', history=hist)
            ctx.check(all(m[c] is x for c, x in zip(coords, l)), 'mesh:order', 'iteration is not in row-major order of the coordinates', history=hist)
            ctx.check(len({x.name for x in l}) == len(l) and (m.componentIndim, m.componentOutdim) == (2, 2), 'mesh:names', 'equal names, or wrong dimensions', history=hist)
            ctx.trans(len(l))
            if max(dims) == 1:
                try:
                    ModuleMesh.viewOnFlatLayer(s.LinearLayer(2), dims)
                    ctx.fail('mesh:refuse', 'a view of a single unit is accepted', history=hist)
                except AssertionError:
                    pass
                continue
            for k, cls in ((1, s.LinearLayer), (2, s.LinearLayer), (1, s.LSTMLayer)):
                layer = cls(k * len(coords))
                v = ModuleMesh.viewOnFlatLayer(layer, dims, 'view')
                fi, fo = layer.indim // len(coords), layer.outdim // len(coords)
                for i, c in enumerate(coords):
                    u = v[c]
                    ctx.check(type(u) is ModuleSlice and u.base is layer and (u.inOffset, u.indim, u.outOffset, u.outdim) == (i * fi, fi, i * fo, fo), 'mesh:view', 'a unit of the view is not its row-major part of the layer',
                              coord=c, got=(u.inOffset, u.indim, u.outOffset, u.outdim), want=(i * fi, fi, i * fo, fo), history=hist)
                    ctx.trans()
                ctx.check(len({u.name for u in v}) == len(coords) and (v.componentIndim, v.componentOutdim) == (fi, fo), 'mesh:viewnames', 'equal names, or wrong dimensions', history=hist)
            ctx.trace()


# ---------------------------------------------------------------- swiping networks
def direction(swipe, dim):
    return 1 if (swipe >> dim) % 2 == 0 else -1


def swipe_want(dims, ni, nh, no, label, lstm=False):
    coords = list(itertools.product(*map(range, dims)))
    D, want = len(dims), []
    hi = nh * (3 + D) if lstm else nh
    for i, u in enumerate(coords):
        for s in range(2 ** D):
            h = 'hidden' + str(u + (s,))
            want.append((('in',), 'input', h, i * ni, (i + 1) * ni, 0, hi))
            want.append((('out',), h, 'output', 0, nh, i * no, (i + 1) * no))
            for d in range(D):
                p = list(u)
                p[d] -= direction(s, d)
                if 0 <= p[d] < dims[d]:
                    ph = 'hidden' + str(tuple(p) + (s,))
                    want.append((label(d, s), ph, h, 0, nh, 0, hi))
                    if lstm:
                        want.append((None, ph, h, nh, 2 * nh, hi + nh * d, hi + nh * (d + 1)))
    return coords, want


def swipe_run(dims, ni, nh, no, w, label, x, act, oact, border=None, lstm=None):
    """one unit swiping over the board in each of the directions"""
    coords = list(itertools.product(*map(range, dims)))
    D = len(dims)
    hi = nh * (3 + D) if lstm else nh
    out = np.zeros((len(coords), no))
    W, V = wmat(w['in',], hi, ni), wmat(w['out',], no, nh)
    for s in range(2 ** D):
        h, st = {}, {}

        def value(u):
            if u in h:
                return h[u]
            net = W.dot(x[coords.index(u)])
            last = np.zeros(nh * D)
            for d in range(D):
                p = list(u)
                p[d] -= direction(s, d)
                p = tuple(p)
                if 0 <= p[d] < dims[d]:
                    net = net + wmat(w[label(d, s)], hi, nh).dot(value(p))
                    if lstm:
                        last[nh * d:nh * (d + 1)] = st[p]
                elif border:
                    net = net + wmat(w[border(d, u)], hi, 1)[:, 0]
            if lstm:
                y, _ = R.apply_mod('mdlstm' + ('p' if lstm[s][u] is not None else ''), nh, dict(dimensions=D), np.concatenate([net, last]), lstm[s][u], None)
                h[u], st[u] = y[:nh], y[nh:]
            else:
                h[u] = act(net)
            return h[u]
        for i, u in enumerate(coords):
            out[i] += V.dot(value(u))
    return oact(out).ravel()


def swiping(ctx, dims, lstm):
    from pybrain import structure as S
    from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
    for sdim, sdir in itertools.product([None, True, False], repeat=2):
        for ni, nh, no in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 2)]:
            if int(np.prod(dims)) > 6 and nh > 2:
                continue
            for act in ([None] if lstm else [None, S.LinearLayer]):
                for peep in ([False, True] if lstm else [False]):
                    a = dict(symmetricdimensions=sdim, symmetricdirections=sdir, componentclass=act, outcomponentclass=act)
                    a = {k: v for k, v in a.items() if v is not None}
                    if lstm:
                        a['peepholes'] = peep
                    hist = dict(dims=dims, sizes=(ni, nh, no), **{k: getattr(v, '__name__', v) for k, v in a.items()})
                    ctx.state(repr(hist))
                    net = (MultiDimensionalLSTM if lstm else MultiDimensionalRNN)(dims, insize=ni, hsize=nh, outputs=no, **a)
                    label = lambda d, s: ('h', 0 if sdim is not False else d, 0 if sdir is not False else direction(s, d))
                    D = len(dims)
                    coords, want = swipe_want(dims, ni, nh, no, label, lstm)
                    hi = nh * (3 + D) if lstm else nh
                    hk = 'MDLSTMLayer' if lstm else act.__name__ if act else 'TanhLayer'
                    mods = {'hidden' + str(u + (s,)): (hk, hi + nh * D if lstm else nh, 2 * nh if lstm else nh) for u in coords for s in range(2 ** D)}
                    mods['input'] = ('LinearLayer', ni * len(coords), ni * len(coords))
                    ok_ = act.__name__ if act else 'SigmoidLayer'
                    mods['output'] = (ok_, no * len(coords), no * len(coords))
                    sizes = {l: hi * nh for l in {x[0] for x in want}}
                    sizes[('in',)], sizes[('out',)] = hi * ni, nh * no
                    w = shared(ctx, 'swiping-lstm' if lstm else 'swiping', net, want, None, mods, ['input'], ['output'], hist, sizes)
                    ctx.trace()
                    if w is None:
                        continue
                    fill(net)
                    cells = None
                    if lstm:
                        cells = [{u: np.array(net['hidden' + str(u + (s,))].params) if peep else None for u in coords} for s in range(2 ** D)]
                    for x in probes(net.indim):
                        got = net.activate(x)
                        y = swipe_run(dims, ni, nh, no, w, label, x.reshape(len(coords), ni), ACT[hk] if not lstm else None, ACT[ok_], lstm=cells)
                        ctx.trans()
                        ctx.check(close(got, y), 'swiping-lstm:function' if lstm else 'swiping:function', 'the network is not a unit swiping over the board', got=got, want=y, history=hist)


def predefined(ctx):
    """the pieces given to the constructors are used"""
    from pybrain import structure as S
    from pybrain.structure.networks.swiping import SwipingNetwork
    from pybrain.structure.connections.shared import MotherConnection
    for dims in ((2, 2), (2, 3)):
        for given in itertools.product([False, True], repeat=3):
            n = int(np.prod(dims))
            il, ol = S.LinearLayer(n, name='input'), S.LinearLayer(n, name='output')
            im, om = S.ModuleMesh.viewOnFlatLayer(il, dims, 'i'), S.ModuleMesh.viewOnFlatLayer(ol, dims, 'o')
            hm = S.ModuleMesh.constructWithLayers(S.TanhLayer, 2, dims + (4,), 'hidden')
            a, b, c0, c1 = MotherConnection(2, name='a'), MotherConnection(2, name='b'), MotherConnection(4, name='c'), MotherConnection(4, name='d')
            pre = {k: v for g, (k, v) in zip(given, [('inconn', a), ('outconn', b), ('hconns', {0: c0, 1: c1})]) if g}
            net = SwipingNetwork(im, hm, om, predefined=pre)
            hist = dict(dims=dims, given=sorted(pre))
            label = lambda d, s: ('h', d if given[2] else 0)
            coords, want = swipe_want(dims, 1, 2, 1, label)
            mods = {'hidden' + str(u + (s,)): ('TanhLayer', 2, 2) for u in coords for s in range(4)}
            mods.update(input=('LinearLayer', n, n), output=('LinearLayer', n, n))
            w = shared(ctx, 'predefined', net, want, None, mods, ['input'], ['output'], hist, {('in',): 2, ('out',): 2, ('h', 0): 4, ('h', 1): 4})
            ctx.state((dims, given))
            ctx.trace()
            if w:
                ctx.check((w['in',] is a) == given[0] and (w['out',] is b) == given[1] and (w['h', 0] is c0) == given[2] and (not given[2] or w['h', 1] is c1), 'predefined:used', 'predefined weights are not the ones used', history=hist)


# ---------------------------------------------------------------- borders
def canonic(dims, dim, u, symmetric):
    """which border connection a unit uses: by its position along the border, mirrored if symmetric"""
    t = tuple(x for i, x in enumerate(u) if i != dim)
    r = tuple(x for i, x in enumerate(dims) if i != dim)
    return tuple(min(x, m - 1 - x) for x, m in zip(t, r)) if symmetric else t


def capture(ctx, size):
    from pybrain import structure as S
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    dims = (size, size)
    for simple, sdim, direct, comb in itertools.product([None, True], [None, False], [False, True], [0, 1, 2]):
        for nh, no, lstm in [(1, 1, False), (2, 1, False), (1, 2, False), (2, 1, True)]:
            a = dict(size=size, hsize=nh, outputs=no)
            if simple is not None:
                a['simpleborders'] = simple
            if sdim is not None:
                a['symmetricdimensions'] = sdim
            if direct:
                a['directlink'] = True
            if comb:
                a['combinputs'] = comb
            if lstm:
                a['componentclass'] = S.MDLSTMLayer
            hist = dict(a, componentclass='MDLSTMLayer' if lstm else 'TanhLayer')
            ctx.state(repr(sorted(hist.items())))
            check_capture(ctx, 'capture', CaptureGameNetwork(**a), dims, a, comb, lstm, hist)
            ctx.trace()


def check_capture(ctx, key, net, dims, a, comb, lstm, hist):
    nh, no, simple = a['hsize'], a['outputs'], a.get('simpleborders', False)
    sdim = a.get('symmetricdimensions', True)
    label = lambda d, s: ('h', 0 if sdim else d)
    border = lambda d, u: ('b',) if simple else ('b', 0 if sdim else d, canonic(dims, d, u, sdim))
    coords, want = swipe_want(dims, 2, nh, no, label, lstm)
    hi = nh * 5 if lstm else nh
    for u in coords:
        for s in range(4):
            for d in range(2):
                if not 0 <= u[d] - direction(s, d) < dims[d]:
                    want.append((border(d, u), 'bias', 'hidden' + str(u + (s,)), 0, 1, 0, hi))
            if comb:
                want.append((('g',), 'globalin', 'hidden' + str(u + (s,)), 0, comb, 0, hi))
    if a.get('directlink'):
        for i, u in enumerate(coords):
            want.append((('d',), 'input', 'output', 2 * i, 2 * i + 2, no * i, no * i + no))
    hk = 'MDLSTMLayer' if lstm else 'TanhLayer'
    n = len(coords)
    mods = {'hidden' + str(u + (s,)): (hk, hi + 2 * nh if lstm else nh, 2 * nh if lstm else nh) for u in coords for s in range(4)}
    mods.update(input=('LinearLayer', 2 * n, 2 * n), output=('SigmoidLayer', no * n, no * n), bias=('BiasUnit', 0, 1))
    if comb:
        mods['globalin'] = ('LinearLayer', comb, comb)
    sizes = {}
    for x in want:
        if x[0]:
            sizes[x[0]] = {'in': 2 * hi, 'out': nh * no, 'h': hi * nh, 'b': hi, 'g': comb * hi, 'd': 2 * no}[x[0][0]]
    w = two_borders(ctx, key, net, want, mods, ['input'] + (['globalin'] if comb else []), hist, sizes)
    if w is None:
        return None
    fill(net)
    for x in probes(net.indim):
        b = x[:2 * n].reshape(n, 2)
        if comb or a.get('directlink'):
            continue
        y = swipe_run(dims, 2, nh, no, w, label, b, np.tanh, R.sig, border=border, lstm=[{u: None for u in coords}] * 4 if lstm else None)
        got = net.activate(x)
        ctx.trans()
        ctx.check(close(got, y), key + ':function', 'the network is not a unit swiping over the board with borders', got=got, want=y, history=hist)
    return w


def two_borders(ctx, key, net, want, mods, ins, hist, sizes):
    """a corner unit has two border connections with equal end points: order them by weights"""
    cs, rec = summary(net)
    lab = {}
    for x in want:
        lab.setdefault(x[1:], []).append(x[0])
    multi = {k: v for k, v in lab.items() if len(v) > 1 and len(set(v)) > 1}
    if not multi:
        return shared(ctx, key, net, want, None, mods, ins, ['output'], hist, sizes)
    # weights seen at single border units identify the labels; use them to reorder the ambiguous ones
    known = {}
    for c in cs:
        l = lab.get(con(c))
        if l and len(set(l)) == 1 and hasattr(c, 'mother'):
            known[l[0]] = c.mother
    for k in multi:
        here = [c.mother for c in cs if con(c) == k]
        order = []
        for m in here:
            l = [x for x in multi[k] if known.get(x) is m and x not in order]
            rest = [x for x in multi[k] if x not in known and x not in order]
            order.append((l + rest + [None])[0])
        if sorted(map(str, order)) == sorted(map(str, multi[k])):
            for x, m in zip(order, here):
                known.setdefault(x, m)
            lab[k] = order
    want2 = [(l,) + k for k, ls in lab.items() for l in ls]
    return shared(ctx, key, net, want2, None, mods, ins, ['output'], hist, sizes)


def resized(ctx, sizes):
    """the same weights on a board of another size"""
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    for a, b in sizes:
        for simple in (False, True):
            args = dict(size=a, hsize=2, outputs=1, simpleborders=simple)
            net = CaptureGameNetwork(**args)
            fill(net)
            hist = dict(frm=a, to=b, simple=simple)
            ctx.state(repr(hist))
            w = check_capture(ctx, 'resized:old', net, (a, a), args, 0, False, hist)
            keep = np.array(net.params)
            big = net.resizedTo(b)
            ctx.trans()
            ctx.trace()
            ctx.check(close(net.params, keep) and net.size == a, 'resized:original', 'resizing changed the original', history=hist)
            if a == b:
                ctx.check(close(big.params, keep) and big is not net, 'resized:same', 'the copy differs', history=hist)
                continue
            cs, _ = summary(big)
            mo = {c.mother.name: np.array(c.mother.params) for c in cs if hasattr(c, 'mother')}
            args2 = dict(args, size=b)
            w2 = check_capture(ctx, 'resized:new', big, (b, b), args2, 0, False, hist)
            if w is None or w2 is None:
                continue
            old = {m.name: np.array(m.params) for m in w.values()}
            for l in w:
                if l in w2:
                    nm = w2[l].name
                    ctx.check(nm == w[l].name and close(mo[nm], old[nm]), 'resized:weights', 'weights present in both sizes differ', label=l, history=hist)
            f = big.params[0]
            net.params[:] = keep * 2
            ctx.check(big.params[0] == f, 'resized:isolated', 'the resized copy follows the original', history=hist)


# ---------------------------------------------------------------- sequences, convolutions, rbm
def bidirectional(ctx, lengths):
    from pybrain import structure as S
    from pybrain.structure.networks import BidirectionalNetwork
    for T in lengths:
        for sym in (None, False, True):
            for ni, nh, no in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 2)]:
                for act in (None, S.LinearLayer):
                    a = dict(seqlen=T, inputsize=ni, hiddensize=nh, outputsize=no)
                    if sym is not None:
                        a['symmetric'] = sym
                    if act:
                        a.update(componentclass=act, outcomponentclass=act)
                    hist = dict(a, componentclass=str(act))
                    hist.pop('outcomponentclass', None)
                    net = BidirectionalNetwork(**a)
                    ctx.state(repr(sorted(hist.items())))
                    dirs = (0, 0) if sym else (0, 1)
                    want = []
                    for t in range(T):
                        for r in (0, 1):
                            h = 'hidden' + str((r, t))
                            want.append((('in', dirs[r]), 'input', h, t * ni, t * ni + ni, 0, nh))
                            want.append((('out', dirs[r]), h, 'output', 0, nh, t * no, t * no + no))
                            p = t + (1 if r else -1)
                            if 0 <= p < T:
                                want.append((('h', dirs[r]), 'hidden' + str((r, p)), h, 0, nh, 0, nh))
                    hk, okd = (act.__name__, act.__name__) if act else ('TanhLayer', 'SigmoidLayer')
                    mods = {'hidden' + str((r, t)): (hk, nh, nh) for r in (0, 1) for t in range(T)}
                    mods.update(input=('LinearLayer', ni * T, ni * T), output=(okd, no * T, no * T))
                    w = shared(ctx, 'bidirectional', net, want, None, mods, ['input'], ['output'], hist, {(k, d): v for k, v in (('in', ni * nh), ('out', nh * no), ('h', nh * nh)) for d in (0, 1)})
                    ctx.trace()
                    if w is None:
                        continue
                    names = [m.name for m in {id(m): m for m in w.values()}.values()]
                    ctx.check(len(set(names)) == len(names), 'bidirectional:names', 'different weights have equal names', names=names, history=hist)
                    fill(net)
                    for x in probes(net.indim):
                        X, y = x.reshape(T, ni), np.zeros((T, no))
                        for r in (0, 1):
                            h = np.zeros(nh)
                            for i, t in enumerate(range(T) if r == 0 else reversed(range(T))):
                                z = wmat(w['in', dirs[r]], nh, ni).dot(X[t])
                                if i:
                                    z = z + wmat(w['h', dirs[r]], nh, nh).dot(h)
                                h = ACT[hk](z)
                                y[t] += wmat(w['out', dirs[r]], no, nh).dot(h)
                        ctx.trans()
                        ctx.check(close(net.activate(x), ACT[okd](y).ravel()), 'bidirectional:function', 'not the two passes over the sequence', got=net.activate(x), want=ACT[okd](y).ravel(), history=hist)


def convolution(ctx, board):
    from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
    from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
    cases = []
    if board:
        cases = [(2, n, k, f) for n in range(2, 5) for k in range(1, 5) for f in (1, 2) if k <= n]
    else:
        cases = [(d, n, k, f) for d in (1, 2) for n in range(2, 5) for k in range(1, n + 1) for f in (1, 2, 3) if not (k == n == 1)]
    for d, n, k, f in cases:
        hist = dict(inputdim=d, size=n, conv=k, maps=f)
        key = 'convboard' if board else 'convolution'
        ctx.state((d, n, k, f))
        ctx.trace()
        try:
            net = ConvolutionalBoardNetwork(n, k, f) if board else SimpleConvolutionalNetwork(d, n, k, f)
        except AssertionError:
            if n - k + 1 == 1 or k == 1:      # single positions make whole-layer slices, which are refused
                ctx.outcome('degenerate')
                continue
            raise
        pad = k // 2 if board else 0
        N = n + 2 * pad - (1 if board and k % 2 == 0 else 0)
        m = N - k + 1
        cs, rec = summary(net)
        h, out = net['h'], net['out']
        conv = {}
        for c in cs:
            if c.outmod is h:
                conv.setdefault(id(c.mother), []).append(c)
        inp = 'pad' if board else net.inmodules[0].name
        ok = ctx.check(h.indim == m * m * f and out.indim == m * m and net.outdim == m * m and net.indim == d * n * n, key + ':sizes', 'wrong layer sizes', got=(h.indim, out.indim, net.indim), history=hist)
        ok &= ctx.check(len(conv) == k and all(len(v) == m * m for v in conv.values()), key + ':shared', 'not one set of weights per row of the window', got=[len(v) for v in conv.values()], history=hist)
        rows = {}
        for v in conv.values():
            s = set()
            for c in v:
                p = c.outSliceFrom // f
                off = c.inSliceFrom // d
                s.add((off - (p // m) * N - p % m) // N if (off - (p // m) * N - p % m) % N == 0 else 'x')
                ok &= ctx.check(c.inmod.name == inp and c.indim == k * d and c.outdim == f and c.inSliceFrom % d == 0 and c.outSliceFrom % f == 0, key + ':window', 'wrong slice of the window', conn=con(c), history=hist)
            ok &= ctx.check(len(s) == 1 and s <= set(range(k)), key + ':row', 'weights are shared between different rows of the window', got=sorted(map(str, s)), history=hist)
            if ok:
                rows[s.pop()] = np.array(v[0].params).reshape(f, k, d)
        outs = [c for c in cs if c.outmod is out]
        ok &= ctx.check(len(outs) == m * m and len({id(c.mother) for c in outs}) == 1, key + ':out', 'the output weights are not shared by all positions', history=hist)
        n_par = k * k * d * f + f + (d if pad else 0)
        if board and k == 1:
            n_par = k * k * d * f + f
        ok &= ctx.check(net.paramdim == n_par, key + ':paramdim', 'wrong number of parameters', got=net.paramdim, want=n_par, history=hist)
        initialised(ctx, key, net, hist)
        ctx.trans(len(cs))
        if not ok or len(rows) != k:
            continue
        V = np.array(outs[0].params)
        bias = None
        if board:
            bc = [c for c in cs if type(c.inmod).__name__ == 'BiasUnit']
            ctx.check(len({id(c.mother) for c in bc}) == (1 if pad else 0) and len(bc) == N * N - n * n, key + ':padding', 'the border is not padded by one shared bias', got=len(bc), want=N * N - n * n, history=hist)
            bias = np.array(bc[0].params) if bc else None
        for x in probes(net.indim):
            X = x.reshape(n, n, d)
            if board:
                P = np.zeros((N, N, d))
                if bias is not None:
                    P[:] = bias
                P[pad:pad + n, pad:pad + n] = X
                X = P
            y = np.zeros((m, m))
            for i in range(m):
                for j in range(m):
                    z = sum(rows[a][:, b].dot(X[i + a, j + b]) for a in range(k) for b in range(k))
                    y[i, j] = R.sig(V.dot(np.tanh(z)))
            ctx.trans()
            ctx.check(close(net.activate(x), y.ravel()), key + ':function', 'not a convolution', got=net.activate(x), want=y.ravel(), history=hist)


def rbm(ctx):
    from pybrain.structure.networks.rbm import Rbm
    for v, h in itertools.product([1, 2, 3], repeat=2):
        for p, b in itertools.product([False, True], repeat=2):
            W = np.array([(i * 5 % 7) / 3.0 - 1.1 for i in range(v * h)])
            B = np.array([(i * 3 % 5) / 3.0 - 0.6 for i in range(h)])
            r = Rbm.fromDims(v, h, **dict(([('params', W)] if p else []) + ([('biasParams', B)] if b else [])))
            hist = dict(v=v, h=h, p=p, b=b)
            ctx.state((v, h, p, b))
            ctx.trace()
            ctx.check((r.visibleDim, r.hiddenDim, len(r.params), len(r.biasParams), r.net.paramdim) == (v, h, v * h, h, v * h + h), 'rbm:dims', 'wrong dimensions', history=hist)
            ctx.check(not p or close(r.params, W), 'rbm:params', 'the weights given are not used', history=hist)
            ctx.check(not b or close(r.biasParams, B), 'rbm:bias', 'the bias weights given are not used', history=hist)
            initialised(ctx, 'rbm', r.net, hist) if not (p or b) else None
            for x in probes(v):
                y = R.sig(np.array(r.params).reshape(h, v).dot(x) + r.biasParams)
                ctx.trans()
                ctx.check(close(r.activate(x), y), 'rbm:function', 'wrong activation', got=r.activate(x), want=y, history=hist)
            i = r.invert()
            ctx.check((i.visibleDim, i.hiddenDim) == (h, v), 'rbm:invert', 'the inverse has wrong dimensions', history=hist)
            ctx.check(close(np.array(i.params).reshape(v, h), np.array(r.params).reshape(h, v).T), 'rbm:invert:weights', 'the inverse does not use the transposed weights', got=i.params, want=r.params, history=hist)


def jobs(tier, seed):
    deep = tier == 'thorough'
    sizes = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    three = [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3)]
    four = [x for x in itertools.product((1, 2, 3), repeat=4) if deep or len(set(x)) > 2 or x in ((1, 1, 1, 1), (2, 2, 2, 2))]
    if not deep:
        four = four[::3]
        three = three[::2]
    five = list(itertools.product((1, 2, 3), repeat=5))[::(1 if deep else 40)]
    js = [('build-2l', build, (sizes[::2], True)), ('build-lstm', build, (three[::1 if deep else 2], True))]
    for i in range(2 if not deep else 8):
        n = 2 if not deep else 8
        js += [('build-2-%d' % i, build, (sizes[i::n], False)), ('build-3-%d' % i, build, (three[i::n], False)), ('build-4-%d' % i, build, (four[i::n], False)), ('build-5-%d' % i, build, (five[i::n], False))]
    js += [('refused', refused, ()), ('parts', parts, (4 if deep else 3,)), ('meshes', meshes, (4 if deep else 3, 3)), ('predefined', predefined, ())]
    for dims in [(2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (2, 2, 2)] + ([(3, 3), (2, 4), (4, 2), (2, 3, 2), (5,)] if deep else []):
        js.append(('swiping-' + 'x'.join(map(str, dims)), swiping, (dims, False)))
        js.append(('mdlstm-' + 'x'.join(map(str, dims)), swiping, (dims, True)))
    js += [('capture-%d' % n, capture, (n,)) for n in ([2, 3] + ([4, 5] if deep else []))]
    js += [('resized', resized, ([(2, 3), (3, 2), (2, 2), (3, 4), (2, 4), (3, 5)],))]
    js += [('bidirectional', bidirectional, (range(2, 9 if deep else 6),)), ('convolution', convolution, (False,)), ('convboard', convolution, (True,)), ('rbm', rbm, ())]
    return js
