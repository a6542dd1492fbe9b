"""Round trips of networks through XML files, pickles and the copy operations, compared structurally (modules, order of inputs and outputs, connections with end points and slices,
sharing, recurrence, parameter values) and as functions (fixed sequences, with the independent evaluator as reference). Every acyclic graph on three modules, every module kind x
connection kind, every pair of slices, every choice of input and output modules and orders, recurrent and nested networks with equal names on both levels, awkward names. Every
sequence of up to three networks written to one file (new or appended) read back by index and by name in every order. Every chain of conversions up to the depth bound,
each followed by changing either side and comparing the other."""

import copy
import itertools
import os
import pickle
import shutil
import tempfile
from xml.dom import minidom
import numpy as np
from mc import netref as R
from mc.canon import close
from mc.checks.n01 import mk, cyclic
from mc.checks.n04 import find

ASSUMPTIONS = ['module names are distinct within a network, connection names as well; names are ASCII without line breaks', 'parameters are finite', 'copies are made between sequences, not in the middle of one']


class Tmp(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='n05')
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def new(self):
        self.n += 1
        return os.path.join(self.d, '%d.xml' % self.n)


def by_xml(net, tmp):
    from pybrain.tools.customxml.networkwriter import NetworkWriter
    from pybrain.tools.customxml.networkreader import NetworkReader
    f = tmp.new()
    NetworkWriter.writeToFile(net, f)
    r = NetworkReader.readFrom(f)
    os.unlink(f)
    return r


WAYS = dict(xml=by_xml, pickle0=lambda n, t: pickle.loads(pickle.dumps(n, 0)), pickle2=lambda n, t: pickle.loads(pickle.dumps(n, 2)),
            copy=lambda n, t: n.copy(), keep=lambda n, t: n.copy(keepBuffers=True), deepcopy=lambda n, t: copy.deepcopy(n))


def structure(net):
    from pybrain.structure.networks.network import Network
    mods = {}
    for m in net.modules:
        mods[m.name] = (type(m).__name__, m.indim, m.outdim, structure(m) if isinstance(m, Network) else None, getattr(m, 'peepholes', None), getattr(m, 'dimensions', None), getattr(m, 'slicelength', None),
                        tuple(m.params) if m.paramdim and not isinstance(m, Network) else None)
    def con(c):
        mo = getattr(c, 'mother', None)
        return (type(c).__name__, c.inmod.name, c.outmod.name, c.inSliceFrom, c.inSliceTo, c.outSliceFrom, c.outSliceTo, '' if mo is None else mo.name, c.indim, c.outdim,
                tuple(c.params) if c.paramdim else ())
    conns = sorted((c.name,) + con(c) + (k.name,) for k, l in net.connections.items() for c in l)
    rec = sorted((c.name,) + con(c) for c in getattr(net, 'recurrentConns', []))
    # every end point is a part of this very network
    inside = set(map(id, net.modules))
    closed = all(id(c.inmod) in inside and id(c.outmod) in inside for l in list(net.connections.values()) + [getattr(net, 'recurrentConns', [])] for c in l)
    mothers = {id(c.mother): c.mother.name for l in list(net.connections.values()) + [getattr(net, 'recurrentConns', [])] for c in l if getattr(c, 'mother', None) is not None}
    return dict(cls=type(net).__name__, name=net.name, mods=mods, ins=[m.name for m in net.inmodules], outs=[m.name for m in net.outmodules], conns=conns, rec=rec, closed=closed,
                mothers=sorted(mothers.values()), dim=(net.indim, net.outdim, net.paramdim), forget=getattr(net, 'forget', None) or False, sorted=net.sorted,
                order=[m.name for m in net.modulesSorted] and sorted(m.name for m in net.modulesSorted))


def outputs(net, n=3):
    net.reset()
    ys = [net.activate(np.array([((i * 7 + 3 * j) % 11) / 5.0 - 0.9 for i in range(net.indim)])) for j in range(n)]
    net.reset()
    return np.array(ys)


def reference(spec, net, n=3):
    vals = R.read(find(net, spec), R.values(spec))
    return np.array([np.real(y) for y in R.Ref(spec, vals).run([np.array([((i * 7 + 3 * j) % 11) / 5.0 - 0.9 for i in range(net.indim)]) for j in range(n)])])


def same(ctx, key, a, b, spec, hist, want=None):
    sa, sb = structure(a) if want is None else want[0], structure(b)
    ok = True
    for k in sa:
        ok &= ctx.check(sa[k] == sb[k], key + ':' + k, 'the result differs in %s' % k, got=sb[k], want=sa[k], history=hist)
    if not ok:
        return False
    ya = outputs(a) if want is None else want[1]
    yb = outputs(b)
    ctx.trans(2)
    ok = ctx.check(close(ya, yb), key + ':function', 'the result computes another function', got=yb, want=ya, history=hist)
    if ok and spec is not None:
        ok = ctx.check(close(yb, reference(spec, b)), key + ':graph', 'the result does not compute its own graph', got=yb, history=hist)
    return ok


def isolated(ctx, key, a, b, hist):
    """write everything on one side, look at the other, both ways"""
    for x, y, d in ((a, b, 'original'), (b, a, 'copy')):
        if not x.paramdim:
            continue
        s, o = structure(y), outputs(y)
        der = np.array(y.derivs)
        keep = np.array(x.params)
        x.params[:] = x.params * 0.5 + 0.3
        x.derivs[:] = 1.0
        x.activate(np.ones(x.indim))
        x.activate(np.ones(x.indim))
        ctx.check(structure(y) == s and close(y.derivs, der), key + ':isolated', 'changing the %s changed the other side' % d, history=hist)
        ctx.check(close(outputs(y), o), key + ':isolated:function', 'using the %s changed the function of the other side' % d, history=hist)
        x.reset()
        x.params[:] = keep
        x.resetDerivatives()
        ctx.trans(2)


def verify(ctx, key, spec, hist, tmp, ways=('xml', 'pickle2', 'copy'), name=None, **kw):
    net, objs = R.build(spec, name=name, **kw)
    R.install(objs, R.values(spec))
    want = structure(net), outputs(net)
    for w in ways:
        n2 = WAYS[w](net, tmp)
        if same(ctx, '%s:%s' % (key, w), net, n2, spec, [hist, w], want):
            isolated(ctx, '%s:%s' % (key, w), net, n2, [hist, w])
        ctx.trace()
    return net


# ------------------------------------------------------------------ structures
def graphs(ctx, part, parts):
    names = ['m', 'c', 'x']
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    with Tmp() as tmp:
        for code in range(part, 64, parts):
            es = [p for k, p in enumerate(pairs) if code >> k & 1]
            if cyclic(3, es):
                continue
            for ins in [(0,), (0, 1), (1, 0)]:
                for outs in itertools.chain(itertools.permutations(range(3), 1), itertools.permutations(range(3), 2), itertools.permutations(range(3), 3)):
                    spec = dict(mods=[(names[i], ['linear', 'tanh', 'sigmoid'][i], [2, 1, 2][i], None) for i in range(3)], ins=[names[i] for i in ins], outs=[names[i] for i in outs],
                                conns=[R.conn('full', names[i], names[j], name='%s%d%d' % ('zyx'[(i + 2 * j) % 3], i, j)) for i, j in es])
                    verify(ctx, 'graph', spec, dict(edges=es, ins=ins, outs=outs), tmp, ways=('xml',) if len(outs) > 1 else ('xml', 'pickle2', 'copy'))
                    ctx.state((code, ins, outs))


MODS = [('linear', 2, None), ('sigmoid', 2, None), ('tanh', 3, None), ('softsign', 2, None), ('relu', 3, None), ('softmax', 3, None), ('psoftmax', 4, dict(slicelength=2)),
        ('bias', 1, None), ('mult', 2, None), ('gate', 2, None), ('dgate', 2, None), ('switch', 2, None), ('lstm', 2, None), ('lstmp', 2, None), ('mdlstm', 1, dict(dimensions=2)), ('mdlstmp', 2, dict(dimensions=2))]
CONNS = ['full', 'notself', 'identity', 'linear', 'perm', 'subs', 'sfull', 'ssubs']


def kinds(ctx, kind):
    with Tmp() as tmp:
        for m in MODS:
            di, do = R.dims(*m)
            for rec in (False, True):
                if m[0].startswith('lstm') and not rec:
                    continue
                for n in (do, 2):
                    c = mk(kind, 'm', 'o', do, n, name='k')
                    if c is None:
                        continue
                    conns = [c] + ([R.conn('full', 'i', 'm', name='z')] if di else []) + [R.conn('full', 'i', 'o', name='id')]
                    spec = dict(mods=[('i', 'linear', 3, None), ('m',) + m, ('o', 'tanh', n, None)], conns=conns, ins=['i'], outs=['o', 'm'])
                    if rec:
                        r = mk(kind, 'm', 'o', do, n, name='r')
                        spec.update(recurrent=True, rec=[r])
                    verify(ctx, 'kinds:%s:%s' % (kind, m[0]), spec, [kind, m, rec, n], tmp)
                    ctx.state((kind, repr(m), rec, n))


def slices(ctx, kind):
    n = 3
    spans = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    with Tmp() as tmp:
        for s in spans:
            for t in spans:
                sl = s + t
                c = mk(kind, 'a', 'b', s[1] - s[0], t[1] - t[0], sl)
                if c is None:
                    continue
                r = mk(kind, 'b', 'a', s[1] - s[0], t[1] - t[0], sl, name='r')
                spec = dict(recurrent=True, mods=[('a', 'tanh', n, None), ('b', 'sigmoid', n, None)], conns=[c, R.conn('full', 'a', 'b', name='rest')], rec=[r], ins=['a'], outs=['b'])
                verify(ctx, 'slice:%s' % kind, spec, sl, tmp, ways=('xml', 'deepcopy'))
                ctx.state((kind, sl))


def kindslices(ctx, part, parts):
    """every slice of the outputs of every module kind, and of its inputs"""
    with Tmp() as tmp:
        for k, m in enumerate(MODS):
            if k % parts != part:
                continue
            di, do = R.dims(*m)
            for side, n in (('out', do), ('in', di)):
                for a in range(n):
                    for b in range(a + 1, n + 1):
                        conns = [R.conn('full', 'm', 'o', (a, b, 0, 1) if side == 'out' else None, name='y')]
                        if di:
                            conns.append(R.conn('full', 'i', 'm', (0, 1, a, b) if side == 'in' else None, name='x'))
                        spec = dict(recurrent=True, mods=[('i', 'linear', 2, None), ('m',) + m, ('o', 'linear', 2, None)], conns=conns, rec=[R.conn('full', 'o', 'o', (0, 1, 1, 2), name='r')],
                                    ins=['i'], outs=['o'])
                        verify(ctx, 'kindslice:%s:%s' % (m[0], side), spec, [m, side, a, b], tmp, ways=('xml', 'pickle2', 'copy') if b == n else ('xml',))
                        ctx.state((k, side, a, b))


def nested_specs():
    inner = lambda: dict(mods=[('in', 'linear', 2, None), ('hidden0', 'sigmoid', 2, None), ('out', 'linear', 2, None), ('bias', 'bias', 1, None)], ins=['in'], outs=['out'],
                         conns=[R.conn('full', 'in', 'hidden0', name='c1'), R.conn('full', 'hidden0', 'out', name='c2'), R.conn('full', 'bias', 'out', name='c3')])
    yield 'inner-only', inner()
    yield 'same-names', dict(mods=[('in', 'linear', 2, None), ('hidden0', 'net', inner(), None), ('out', 'tanh', 2, None), ('bias', 'bias', 1, None)], ins=['in'], outs=['out'],
                             conns=[R.conn('full', 'in', 'hidden0', name='c1'), R.conn('full', 'hidden0', 'out', name='c2'), R.conn('full', 'bias', 'out', name='c3'), R.conn('linear', 'in', 'out', name='c4')])
    sh = inner()
    sh['conns'] = [R.conn('sfull', 'in', 'hidden0', name='c1', mother='mo', nparams=4), R.conn('sfull', 'hidden0', 'out', name='c2', mother='mo', nparams=4)]
    yield 'same-mothers', dict(mods=[('in', 'linear', 2, None), ('n', 'net', sh, None), ('out', 'tanh', 2, None)], ins=['in'], outs=['out'],
                               conns=[R.conn('sfull', 'in', 'n', name='c1', mother='mo', nparams=4), R.conn('sfull', 'n', 'out', name='c2', mother='mo', nparams=4)])
    r = inner()
    r.update(recurrent=True, rec=[R.conn('full', 'out', 'hidden0', name='r')])
    yield 'rec-in-rec', dict(recurrent=True, mods=[('in', 'linear', 2, None), ('n', 'net', r, None), ('out', 'tanh', 2, None)], ins=['in'], outs=['out', 'n'],
                             conns=[R.conn('full', 'in', 'n', name='c1'), R.conn('full', 'n', 'out', name='c2')], rec=[R.conn('full', 'out', 'in', name='r'), R.conn('full', 'n', 'n', name='r2')])
    yield 'twice', dict(mods=[('in', 'linear', 2, None), ('n1', 'net', inner(), None), ('n2', 'net', inner(), None)], ins=['in', 'n2'], outs=['n2', 'n1'],
                        conns=[R.conn('full', 'in', 'n1', name='c1'), R.conn('full', 'n1', 'n2', name='c2')])
    deep = dict(mods=[('in', 'net', inner(), None), ('out', 'linear', 1, None)], ins=['in'], outs=['out'], conns=[R.conn('full', 'in', 'out', name='c1')])
    yield 'deep', dict(mods=[('in', 'linear', 2, None), ('out', 'net', deep, None)], ins=['in'], outs=['out'], conns=[R.conn('full', 'in', 'out', name='c1')])


def nested(ctx):
    with Tmp() as tmp:
        for k, spec in nested_specs():
            for mo in itertools.permutations(range(len(spec['mods']))):
                verify(ctx, 'nested:' + k, spec, [k, mo], tmp, ways=tuple(sorted(WAYS)), name='top')
                ctx.state((k, mo))
            # and copies of copies
            net, objs = R.build(spec)
            R.install(objs, R.values(spec))
            for a, b in itertools.product(sorted(WAYS), repeat=2):
                n2 = WAYS[b](WAYS[a](net, tmp), tmp)
                same(ctx, 'nested:%s:%s:%s' % (k, a, b), net, n2, spec, [k, a, b])
                isolated(ctx, 'nested:%s:%s:%s' % (k, a, b), net, n2, [k, a, b])
                ctx.state((k, a, b))
                ctx.trace()


def names(ctx):
    """names that could be taken for values, keywords, markup or each other"""
    awkward = ['2', 'True', 'None', 'in', 'a b', '<m>', 'q"uote', "it's", 'x&y', '[1]', 'len', 'mo', 'Network', 'Parameters', '-', '1e3', 'array', '%s']
    with Tmp() as tmp:
        for a in awkward:
            for b in awkward:
                if a == b:
                    continue
                spec = dict(mods=[(a, 'linear', 2, None), (b, 'lstmp', 2, None), ('o', 'mdlstmp', 2, dict(dimensions=2))], ins=[a], outs=['o'], recurrent=True,
                            conns=[R.conn('full', a, b, (0, 2, 1, 4), name=b), R.conn('sfull', b, 'o', (0, 2, 0, 2), name=a, mother=b + a, nparams=4)], rec=[R.conn('full', b, a, name='r')])
                verify(ctx, 'names', spec, [a, b], tmp, ways=('xml',), name=a)
                ctx.state((a, b))


def several(ctx, part, parts):
    """every sequence of up to three networks in one file"""
    from pybrain.tools.customxml.networkwriter import NetworkWriter
    from pybrain.tools.customxml.networkreader import NetworkReader
    specs = dict(nested_specs())
    specs['2'] = dict(mods=[('2', 'linear', 2, None), ('in', 'tanh', 2, None)], ins=['2'], outs=['in'], conns=[R.conn('full', '2', 'in', name='c1')])
    specs['rec'] = dict(recurrent=True, mods=[('in', 'linear', 2, None), ('2', 'lstmp', 1, None)], ins=['in'], outs=['2'], conns=[R.conn('full', 'in', '2', name='c1')], rec=[R.conn('full', '2', '2', name='r')])
    nets = {}
    for k, s in specs.items():
        net, objs = R.build(s, name='net-' + k)
        R.install(objs, R.values(s))
        nets[k] = net, structure(net), outputs(net)
    keys = sorted(nets)
    with Tmp() as tmp:
        todo = [t for n in (1, 2, 3) for t in itertools.product(keys, repeat=n) if len(set(t)) == n]
        for k, t in enumerate(todo):
            if k % parts != part:
                continue
            f = tmp.new()
            for i, n in enumerate(t):
                if i == 0:
                    NetworkWriter.writeToFile(nets[n][0], f)
                else:
                    NetworkWriter.appendToFile(nets[n][0], f)
            for i in list(range(len(t))) + list(reversed(range(len(t)))):
                for how in ('index', 'name'):
                    n2 = NetworkReader.readFrom(f, index=i) if how == 'index' else NetworkReader.readFrom(f, name='net-' + t[i])
                    same(ctx, 'file:' + how, None, n2, specs[t[i]], [t, i, how], nets[t[i]][1:])
            for n in t:
                ctx.check(structure(nets[n][0]) == nets[n][1], 'file:original', 'writing changed the network', history=t)
            # a new file replaces the old one
            NetworkWriter.writeToFile(nets[t[0]][0], f)
            root = minidom.parse(f).documentElement
            ctx.check(len([c for c in root.childNodes if c.nodeName == 'Network']) == 1, 'file:overwrite', 'writing a new file kept old content', history=t)
            os.unlink(f)
            ctx.state(t)
            ctx.trace()


def values(ctx):
    """parameters come back exactly"""
    vals = [0.0, -0.0, 1e-300, -1e300, 1 / 3.0, np.pi, 1e16, 123456789.123456789, 5e-324, -2.5, 1.0, 1e-7]
    with Tmp() as tmp:
        for w in sorted(WAYS):
            spec = dict(mods=[('i', 'linear', 3, None), ('o', 'linear', 4, None)], ins=['i'], outs=['o'], conns=[R.conn('full', 'i', 'o')])
            for r in range(len(vals)):
                net, objs = R.build(spec)
                v = np.array(vals[r:] + vals[:r])
                net._setParameters(v)
                n2 = WAYS[w](net, tmp)
                ctx.check(list(n2.params) == list(v), 'values:' + w, 'parameters', got=n2.params, want=v, history=[w, r])
                ctx.state((w, r))
                ctx.trans()
                ctx.trace()


def forgetful(ctx):
    spec = dict(recurrent=True, mods=[('i', 'linear', 1, None), ('h', 'tanh', 2, None), ('o', 'linear', 1, None)], ins=['i'], outs=['o'], conns=[R.conn('full', 'i', 'h'), R.conn('full', 'h', 'o')],
                rec=[R.conn('full', 'h', 'h', name='r')])
    with Tmp() as tmp:
        for w in sorted(WAYS):
            verify(ctx, 'forget', spec, ['forget', w], tmp, ways=(w,), forget=True)
            ctx.state(w)


def constructed(ctx):
    """networks from the library's own constructors"""
    from pybrain.tools.shortcuts import buildNetwork
    from pybrain.structure import LSTMLayer, SigmoidLayer, SoftmaxLayer, GaussianLayer
    from pybrain.structure.networks import BidirectionalNetwork
    makers = {}
    for rec in (False, True):
        for bias in (True, False):
            for peep in (False, True):
                for hid in ((), (2,), (2, 3)):
                    makers['build', rec, bias, peep, hid] = lambda r=rec, b=bias, h=hid: buildNetwork(2, *(h + (2,)), recurrent=r, bias=b, outclass=SoftmaxLayer)
                makers['lstm', rec, bias, peep] = lambda b=bias, p=peep: buildNetwork(2, 3, 2, hiddenclass=LSTMLayer, bias=b, outputbias=False, peepholes=p)
    for sym in (False, True):
        makers['bidi', sym] = lambda s=sym: BidirectionalNetwork(seqlen=3, inputsize=1, hiddensize=2, symmetric=s)
    from pybrain.structure.networks.custom.capturegame import CaptureGameNetwork
    from pybrain.structure.networks.multidimensional import MultiDimensionalRNN, MultiDimensionalLSTM
    from pybrain.structure.networks.custom.convboard import ConvolutionalBoardNetwork
    from pybrain.structure.networks.convolutional import SimpleConvolutionalNetwork
    makers['mdrnn'] = lambda: MultiDimensionalRNN((2, 3), hsize=2)
    makers['mdrnn-a'] = lambda: MultiDimensionalRNN((2, 2), hsize=1, symmetricdirections=False, symmetricdimensions=False)
    makers['mdlstm'] = lambda: MultiDimensionalLSTM((2, 2), hsize=1)
    makers['convboard'] = lambda: ConvolutionalBoardNetwork(4, 3, 2)
    makers['conv'] = lambda: SimpleConvolutionalNetwork(1, 3, 2, 2)
    makers['capture'] = lambda: CaptureGameNetwork(size=2, hsize=1)
    makers['capture-t'] = lambda: CaptureGameNetwork(size=2, hsize=1, simpleborders=True)
    with Tmp() as tmp:
        for k in makers:
            net = makers[k]()
            net.params[:] = [(((i + 1) * 7919) % 1009) / 504. - 1 for i in range(net.paramdim)]
            want = structure(net), outputs(net)
            for w in sorted(WAYS):
                ctx.state((k, w))
                try:
                    n2 = WAYS[w](net, tmp)
                except Exception as e:
                    n2 = e
                if w == 'xml' and (isinstance(n2, Exception) or structure(n2) != want[0]):
                    ctx.fail('composed:xml:%s' % type(net).__name__, 'a network built by its own constructor is not reproduced by its XML file', result=repr(n2), history=[k, w])
                    continue
                key = 'constructed:%s:%s' % (k[0] if isinstance(k, tuple) else k, w)
                if same(ctx, key, net, n2, None, [k, w], want):
                    isolated(ctx, key, net, n2, [k, w])
                ctx.trace()


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('graphs-%d' % i, graphs, (i, 6)) for i in range(6)]
    js += [('kinds-' + k, kinds, (k,)) for k in CONNS] + [('slices-' + k, slices, (k,)) for k in CONNS]
    js += [('nested', nested, ()), ('names', names, ()), ('values', values, ()), ('forget', forgetful, ()), ('constructed', constructed, ())]
    js += [('kindslices-%d' % i, kindslices, (i, 4)) for i in range(4)]
    js += [('several-%d' % i, several, (i, 4)) for i in range(4)]
    return js
