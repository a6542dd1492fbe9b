"""Networks from a small specification: the real pybrain object on one side, a plain evaluator of the graph on the
other.  The evaluator is written from the definition of each module and connection, works on complex numbers (exact
derivatives by the complex step) and never touches pybrain.

spec = dict(mods=[(name, kind, dim, extra)], conns=[(kind, src, dst, slices, extra)], rec=[...], ins=[..], outs=[..])
slices = (inFrom, inTo, outFrom, outTo), None = default."""

import numpy as np


# ---------------------------------------------------------------- evaluator
def sig(x):
    return 1.0 / (1.0 + np.exp(-x))


def _abs(x):
    return np.where(np.real(x) < 0, -x, x)


def dims(kind, dim, extra=None):
    if kind == 'bias':
        return 0, 1
    if kind in ('gate', 'mult'):
        return 2 * dim, dim
    if kind == 'dgate':
        return 2 * dim, 2 * dim
    if kind == 'switch':
        return dim, 2 * dim
    if kind in ('lstm', 'lstmp'):
        return 4 * dim, dim
    if kind in ('mdlstm', 'mdlstmp'):
        d = (extra or {}).get('dimensions', 1)
        return (3 + 2 * d) * dim, 2 * dim
    if kind == 'net':
        return (sum(dims(*m[1:])[0] for n in dim['ins'] for m in dim['mods'] if m[0] == n),
                sum(dims(*m[1:])[1] for n in dim['outs'] for m in dim['mods'] if m[0] == n))
    return dim, dim


def nparams(kind, dim, extra=None):
    if kind == 'lstmp':
        return 3 * dim
    if kind == 'mdlstmp':
        return (2 + (extra or {}).get('dimensions', 1)) * dim
    return 0


def apply_mod(kind, dim, extra, x, p, st):
    """-> output, state for the next step"""
    if kind == 'linear':
        return x, None
    if kind == 'sigmoid':
        return sig(x), None
    if kind == 'tanh':
        return np.tanh(x), None
    if kind == 'softsign':
        return x / (1 + _abs(x)), None
    if kind == 'relu':
        return np.where(np.real(x) > 0, x, 0 * x), None
    if kind == 'softmax':
        e = np.exp(x)
        return e / e.sum(), None
    if kind == 'psoftmax':
        k = extra['slicelength']
        e = np.exp(x).reshape(-1, k)
        return (e / e.sum(1).reshape(-1, 1)).ravel(), None
    if kind == 'bias':
        return np.ones(1), None
    if kind == 'mult':
        return x[:dim] * x[dim:], None
    if kind == 'gate':
        return sig(x[:dim]) * x[dim:], None
    if kind == 'dgate':
        g = sig(x[:dim])
        return np.concatenate([g * x[dim:], (1 - g) * x[dim:]]), None
    if kind == 'switch':
        g = sig(x)
        return np.concatenate([g, 1 - g]), None
    if kind in ('lstm', 'lstmp'):
        i, f, c, o = (x[k * dim:(k + 1) * dim] for k in range(4))
        prev = np.zeros(dim) if st is None else st
        if kind == 'lstmp':
            i = i + p[:dim] * prev
            f = f + p[dim:2 * dim] * prev
        s = sig(i) * np.tanh(c) + sig(f) * prev
        if kind == 'lstmp':
            o = o + p[2 * dim:] * s
        return sig(o) * np.tanh(s), s
    if kind in ('mdlstm', 'mdlstmp'):
        d = (extra or {}).get('dimensions', 1)
        i = x[:dim]
        f = x[dim:dim * (1 + d)]
        c = x[dim * (1 + d):dim * (2 + d)]
        o = x[dim * (2 + d):dim * (3 + d)]
        last = x[dim * (3 + d):]
        if kind == 'mdlstmp':
            for k in range(d):
                i = i + p[:dim] * last[k * dim:(k + 1) * dim]
            f = f + p[dim:dim * (1 + d)] * last
        s = sig(i) * np.tanh(c)
        g = sig(f)
        for k in range(d):
            s = s + g[k * dim:(k + 1) * dim] * last[k * dim:(k + 1) * dim]
        if kind == 'mdlstmp':
            o = o + p[dim * (1 + d):] * s
        return np.concatenate([sig(o) * np.tanh(s), s]), None
    raise KeyError(kind)


def apply_conn(kind, x, n, extra, p):
    """contribution to the n inputs it names"""
    m = len(x)
    if kind in ('full', 'sfull'):
        return sum_rows(p, n, m, x)
    if kind == 'notself':
        q = np.array(p).reshape(n, m) * (1 - np.eye(n))
        return sum_rows(q.ravel(), n, m, x)
    if kind == 'identity':
        return x
    if kind == 'linear':
        return x * p
    if kind == 'perm':
        b, perm = extra['blocksize'], extra['permutation']
        return np.concatenate([x[k * b:(k + 1) * b] for k in perm])
    if kind in ('subs', 'ssubs'):
        return sum(x) / m * p
    raise KeyError(kind)


def sum_rows(p, n, m, x):
    return np.array([sum(p[r * m + c] * x[c] for c in range(m)) for r in range(n)])


def conn_nparams(kind, m, n):
    return {'full': m * n, 'notself': m * n, 'linear': m, 'subs': n}.get(kind, 0)


class Ref(object):
    """evaluator of a spec; params: name -> vector (modules and connections by name, mothers by name)"""

    def __init__(self, spec, params):
        self.s, self.p = spec, params
        self.mods = {m[0]: m for m in spec['mods']}
        self.sub = {}
        self.reset()

    def reset(self):
        self.prev = None        # outputs of the previous step
        self.st = {}
        for m in self.s['mods']:
            if m[1] == 'net':
                self.sub[m[0]] = Ref(m[2], self.p[m[0]])

    def step(self, x):
        out, busy = {}, set()
        feed, i = {}, 0
        for n in self.s['ins']:
            d = dims(*self.mods[n][1:])[0]
            feed[n] = x[i:i + d]
            i += d
        newst = {}

        def value(n):
            if n in out:
                return out[n]
            assert n not in busy, 'cycle'
            busy.add(n)
            name, kind, dim, extra = self.mods[n]
            di = dims(kind, dim, extra)[0]
            acc = np.zeros(di, dtype=complex)
            if n in feed:
                acc = acc + feed[n]
            for c in self.s['conns']:
                if c[2] == n:
                    acc = self.deliver(acc, c, value(c[1]))
            if self.prev is not None:
                for c in self.s.get('rec', ()):
                    if c[2] == n:
                        acc = self.deliver(acc, c, self.prev[c[1]])
            if kind == 'net':
                sub = self.sub[n]
                if not dim.get('recurrent'):
                    sub.reset()
                y = sub.step(acc)
            else:
                y, newst[n] = apply_mod(kind, dim, extra, acc, self.p.get(n), self.st.get(n))
            out[n] = y
            return y

        for m in self.s['mods']:
            value(m[0])
        self.prev, self.st = out, newst
        return np.concatenate([out[n] for n in self.s['outs']] or [np.zeros(0)])

    def deliver(self, acc, c, y):
        kind, src, dst, sl, extra = c
        a, b, e, f = sl or (0, None, 0, None)
        x = y[a:b]
        di = len(acc)
        n = (di if f is None else f) - e
        key = extra['mother'] if kind in ('sfull', 'ssubs') else extra['name']
        acc = acc.copy()
        acc[e:e + n] += apply_conn(kind, x, n, extra, self.p.get(key))
        return acc

    def run(self, xs):
        """a sequence for recurrent networks, independent samples otherwise"""
        ys = []
        self.reset()
        for x in xs:
            if not self.s.get('recurrent'):
                self.reset()
            ys.append(self.step(np.asarray(x)))
        return ys


# ---------------------------------------------------------------- the real thing
def make_mod(m, subnets=None):
    from pybrain.structure import modules as M
    from pybrain.structure.modules.softsign import SoftSignLayer
    from pybrain.structure.modules.softmax import PartialSoftmaxLayer
    from pybrain.structure.modules.relulayer import ReluLayer
    name, kind, dim, extra = m
    extra = extra or {}
    if kind == 'bias':
        return M.BiasUnit(name=name)
    if kind == 'net':
        net, objs = build(dim, name=name)
        if subnets is not None:
            subnets[name] = objs
        return net
    if kind in ('lstm', 'lstmp'):
        return M.LSTMLayer(dim, peepholes=kind == 'lstmp', name=name)
    if kind in ('mdlstm', 'mdlstmp'):
        return M.MDLSTMLayer(dim, extra.get('dimensions', 1), kind == 'mdlstmp', name=name)
    if kind == 'psoftmax':
        l = PartialSoftmaxLayer(dim, extra['slicelength'])
        l.name = name
        return l
    cls = dict(linear=M.LinearLayer, sigmoid=M.SigmoidLayer, tanh=M.TanhLayer, softmax=M.SoftmaxLayer,
               relu=ReluLayer, softsign=SoftSignLayer, gate=M.GateLayer, mult=M.MultiplicationLayer,
               dgate=M.DoubleGateLayer, switch=M.SwitchLayer)[kind]
    return cls(dim, name=name)


def make_conn(c, objs):
    from pybrain.structure import connections as C
    from pybrain.structure.connections.permutation import PermutationConnection
    from pybrain.structure.connections.shared import MotherConnection, SharedFullConnection, SharedSubsamplingConnection
    from pybrain.structure.connections.subsampling import SubsamplingConnection
    from pybrain.structure.connections.fullnotself import FullNotSelfConnection
    kind, src, dst, sl, extra = c
    kw = dict(name=extra['name'])
    if sl:
        for k, v in zip(('inSliceFrom', 'inSliceTo', 'outSliceFrom', 'outSliceTo'), sl):
            if v is not None:
                kw[k] = v
    a, b = objs[src], objs[dst]
    if kind == 'perm':
        return PermutationConnection(a, b, extra['permutation'], extra['blocksize'], **kw)
    if kind in ('sfull', 'ssubs'):
        mo = extra['mother']
        if mo not in objs:
            objs[mo] = MotherConnection(extra['nparams'], name=mo)
        cls = SharedFullConnection if kind == 'sfull' else SharedSubsamplingConnection
        return cls(objs[mo], a, b, **kw)
    cls = dict(full=C.FullConnection, identity=C.IdentityConnection, linear=C.LinearConnection,
               notself=FullNotSelfConnection, subs=SubsamplingConnection)[kind]
    return cls(a, b, **kw)


def build(spec, name=None, morder=None, corder=None, sort=True, forget=False, cls=None):
    """-> network, objects by name (sub-networks: dict)"""
    from pybrain.structure import FeedForwardNetwork, RecurrentNetwork
    if cls is not None:
        net = cls(name=name)
    elif spec.get('recurrent'):
        net = RecurrentNetwork(name=name, forget=True) if forget else RecurrentNetwork(name=name)
    else:
        net = FeedForwardNetwork(name=name)
    objs, subs = {}, {}
    for m in spec['mods']:
        objs[m[0]] = make_mod(m, subs)
    mods = spec['mods'] if morder is None else [spec['mods'][i] for i in morder]
    for m in mods:
        n = m[0]
        if n not in spec['ins'] and n not in spec['outs']:
            net.addModule(objs[n])
        elif morder is not None:
            net.addModule(objs[n])
    for n in spec['ins']:
        net.addInputModule(objs[n])
    for n in spec['outs']:
        net.addOutputModule(objs[n])
    conns = [(c, False) for c in spec['conns']] + [(c, True) for c in spec.get('rec', ())]
    if corder is not None:
        conns = [conns[i] for i in corder]
    made = [(make_conn(c, objs), c, r) for c, r in conns]
    for o, c, r in made:
        objs[c[4]['name']] = o
        (net.addRecurrentConnection if r else net.addConnection)(o)
    if sort:
        net.sortModules()
    for n, o in subs.items():
        objs['sub:' + n] = o
    return net, objs


def containers(spec):
    """names of the parameter containers of a spec and their sizes"""
    res = {}
    md = {m[0]: m for m in spec['mods']}
    for m in spec['mods']:
        k = nparams(*m[1:]) if m[1] != 'net' else 0
        if k:
            res[m[0]] = k
    for c in list(spec['conns']) + list(spec.get('rec', ())):
        kind, src, dst, sl, extra = c
        if kind in ('sfull', 'ssubs'):
            res[extra['mother']] = extra['nparams']
            continue
        a, b, e, f = sl or (0, None, 0, None)
        m = (dims(*md[src][1:])[1] if b is None else b) - a
        n = (dims(*md[dst][1:])[0] if f is None else f) - e
        k = conn_nparams(kind, m, n)
        if k:
            res[extra['name']] = k
    return res


def values(spec, salt=0):
    """fixed, irregular parameter values: name -> vector (nested: name -> dict)"""
    import zlib
    res = {}
    for n, k in containers(spec).items():
        h = zlib.crc32(('%s/%d' % (n, salt)).encode())
        res[n] = np.array([(((h + 7919 * i) * 2654435761) % 4093) / 2046.5 - 1.0 for i in range(k)])
    for m in spec['mods']:
        if m[1] == 'net':
            res[m[0]] = values(m[2], salt + 1)
    return res


def install(objs, vals):
    """write values in place into the containers"""
    for n, v in vals.items():
        if isinstance(v, dict):
            install(objs['sub:' + n], v)
        else:
            objs[n].params[:] = v


def read(objs, vals, what='params'):
    return {n: (read(objs['sub:' + n], v, what) if isinstance(v, dict) else np.array(getattr(objs[n], what)))
            for n, v in vals.items()}


def conn(kind, src, dst, sl=None, name=None, **extra):
    extra['name'] = name or '%s-%s%s' % (src, dst, '' if not sl else '/%s' % (sl,))
    return (kind, src, dst, sl, extra)
