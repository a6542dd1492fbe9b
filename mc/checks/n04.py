"""Aliasing of a network's vectors with those of its parts, observed by writing: in every state reached by every history up to the depth bound over
sorting, in-place writes and assignments on either side, randomising, mutating, clearing derivatives, adding modules and connections, nesting, re-sorting on both levels, copying,
deep-copying, pickling, XML round trips and training steps, every parameter of every part is tagged and read back through the network (each exactly once, shared weights once),
the network's vector is tagged and read back through the parts, the same for derivatives, and the next activation is compared with an independent evaluator.
Both the object at hand and every object it was copied from are checked, and the latter must be untouched. Every assignment shape that is refused must change nothing."""

import copy
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
from mc import netref as R
from mc import history
from mc.canon import close

ASSUMPTIONS = ['a nested network is sorted before it is added', 'networks are not modified while a copy is being made']


def spec_of(which):
    if which == 'ff':
        return dict(mods=[('i', 'linear', 2, None), ('h', 'tanh', 2, None), ('b', 'bias', 1, None), ('o', 'linear', 2, None), ('md', 'mdlstmp', 1, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'h', name='c1'), R.conn('sfull', 'h', 'o', name='s1', mother='mo', nparams=4), R.conn('sfull', 'i', 'o', name='s2', mother='mo', nparams=4),
                           R.conn('full', 'b', 'h', name='c2'), R.conn('full', 'h', 'md', (0, None, 0, 4), name='c4'), R.conn('linear', 'h', 'o', name='c3'), R.conn('identity', 'md', 'o', (0, 1, 0, 1), name='c5')])
    if which == 'rec':
        return dict(recurrent=True, mods=[('i', 'linear', 1, None), ('l', 'lstmp', 1, None), ('o', 'tanh', 1, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'l', name='c1'), R.conn('sfull', 'l', 'o', name='s1', mother='mo', nparams=1)],
                    rec=[R.conn('sfull', 'o', 'o', name='s2', mother='mo', nparams=1), R.conn('full', 'l', 'l', name='r1'), R.conn('linear', 'o', 'o', name='r2')])
    inner = dict(mods=[('i', 'linear', 2, None), ('o', 'sigmoid', 1, None)], ins=['i'], outs=['o'], conns=[R.conn('full', 'i', 'o', name='c1')])
    if which == 'nested':
        deep = dict(mods=[('n', 'net', copy.deepcopy(inner), None), ('q', 'tanh', 1, None)], ins=['n'], outs=['q'], conns=[R.conn('full', 'n', 'q', name='d')])
        return dict(mods=[('i', 'linear', 2, None), ('n', 'net', inner, None), ('n2', 'net', deep, None), ('o', 'linear', 2, None)], ins=['i'], outs=['o'],
                    conns=[R.conn('full', 'i', 'n', name='c1'), R.conn('full', 'n', 'o', name='c2'), R.conn('identity', 'i', 'n2', name='c3'), R.conn('full', 'n2', 'o', name='c4')])
    raise KeyError(which)


def parts(net):
    """every leaf container below the network, by identity"""
    from pybrain.structure.networks.network import Network
    from pybrain.structure.connections.shared import SharedConnection
    seen, res = set(), []

    def visit(n):
        cs = [c for l in n.connections.values() for c in l] + list(getattr(n, 'recurrentConns', []))
        for m in n.modules:
            if isinstance(m, Network):
                visit(m)
            elif m.paramdim:
                cs.append(m)
        for c in cs:
            if isinstance(c, SharedConnection):
                c = c.mother
            if getattr(c, 'paramdim', 0) and id(c) not in seen:
                seen.add(id(c))
                res.append(c)
    visit(net)
    return res


def subnets(net):
    from pybrain.structure.networks.network import Network
    for m in net.modules:
        if isinstance(m, Network):
            yield m
            for x in subnets(m):
                yield x


def linked(ctx, key, net, hist):
    """tag both sides, for parameters and derivatives, then put everything back"""
    ps = sorted(parts(net), key=lambda p: p.name)
    total = sum(p.paramdim for p in ps)
    ok = ctx.check(net.paramdim == total and len(net.params) == total and len(net.derivs) == total and len(net) == total, key + ':size', 'size of the parameter vector', got=net.paramdim, want=total, history=hist)
    if not ok:
        return False
    places = {}
    for what in ('params', 'derivs'):
        vec = getattr(net, what)
        keep = np.array(vec)
        before = {id(p): np.array(getattr(p, what)) for p in ps}
        t = 1000.0
        tags = {}
        for p in ps:
            tags[id(p)] = np.arange(p.paramdim) + t
            getattr(p, what)[:] = tags[id(p)]
            t += p.paramdim
        got = np.array(getattr(net, what))
        ok = ctx.check(sorted(got) == sorted(1000.0 + i for i in range(total)), key + ':up:' + what, 'values written to the parts are not those of the network, each once', got=got, history=hist)
        if not ok:
            return False
        pos = {}
        for p in ps:
            i = list(got).index(tags[id(p)][0])
            pos[id(p)] = i
            ok &= ctx.check(list(got[i:i + p.paramdim]) == list(tags[id(p)]), key + ':block:' + what, 'a part is not a contiguous piece of the network vector', history=hist)
        places[what] = pos
        vec[:] = -(np.arange(total) + 5000.0)
        for p in ps:
            i = pos[id(p)]
            ok &= ctx.check(close(getattr(p, what), -(np.arange(i, i + p.paramdim) + 5000.0)), key + ':down:' + what, 'values written to the network do not reach %s' % p.name, history=hist)
            if isinstance(getattr(p, 'ingatePeepWeights', None), np.ndarray):
                n = (p.ingatePeepWeights, p.forgetgatePeepWeights, p.outgatePeepWeights) if what == 'params' else (p.ingatePeepDerivs, p.forgetgatePeepDerivs, p.outgatePeepDerivs)
                ok &= ctx.check(close(np.concatenate(n), getattr(p, what)), key + ':peephole:' + what, 'peephole weights of %s are out of date' % p.name, history=hist)
        for s in subnets(net):
            inner = sum(p.paramdim for p in parts(s))
            ok &= ctx.check(s.paramdim == inner and set(np.array(getattr(s, what))) == {v for p in parts(s) for v in getattr(p, what)} if inner else True, key + ':sub:' + what, 'vector of the nested network', history=hist)
        vec[:] = keep
        ok &= ctx.check(all(close(getattr(p, what), before[id(p)]) for p in ps), key + ':agree:' + what, 'the two views held different values', history=hist)
    ok &= ctx.check(places['params'] == places['derivs'], key + ':align', 'a part has its derivatives at another place than its parameters', history=hist)
    ctx.trans(4)
    return ok


def find(net, spec):
    """objects of the spec inside a (copied) network, by name"""
    objs = {}
    for m in net.modules:
        objs[m.name] = m
    for l in list(net.connections.values()) + [getattr(net, 'recurrentConns', [])]:
        for c in l:
            objs[c.name] = c
            if hasattr(c, 'mother') and c.mother is not None:
                objs[c.mother.name] = c.mother
    for m in spec['mods']:
        if m[1] == 'net':
            objs['sub:' + m[0]] = find(objs[m[0]], m[2])
    return objs


def function(ctx, key, net, spec, hist):
    objs = find(net, spec)
    vals = R.read(objs, R.values(spec))
    ref = R.Ref(spec, vals)
    net.reset()
    xs = [np.array([((i * 7 + 3 * j) % 11) / 5.0 - 0.9 for i in range(net.indim)]) for j in range(2)]
    ys = [net.activate(x) for x in xs]
    net.reset()
    want = [np.real(y) for y in ref.run(xs)]
    return ctx.check(close(np.array(ys), np.array(want)), key + ':activation', 'the next activation does not use the current parameters', got=ys, want=want, history=hist)


OPS = ['net-inplace', 'part-inplace', 'assign', 'assign-list', 'refused', 'randomize', 'mutate', 'clear', 'train', 'add-conn', 'add-module', 'copy', 'deepcopy', 'pickle', 'xml', 'sort', 'resort-inner']


def train(net):
    from pybrain.supervised import BackpropTrainer
    from pybrain.datasets import SupervisedDataSet, SequentialDataSet
    if hasattr(net, 'recurrentConns'):
        ds = SequentialDataSet(net.indim, net.outdim)
        ds.newSequence()
        for k in range(2):
            ds.addSample([.3 + k] * net.indim, [.9 - k] * net.outdim)
    else:
        ds = SupervisedDataSet(net.indim, net.outdim)
        ds.addSample([.3] * net.indim, [.9] * net.outdim)
    BackpropTrainer(net, ds, learningrate=0.1, momentum=0.3).train()


def apply(ctx, op, net, spec, step, tmp, hist):
    """-> network to go on with, or None when the operation does not apply"""
    n = net.paramdim
    if op == 'net-inplace':
        v = np.array([0.25 * ((i * 3 + step) % 9) - 1 for i in range(n)])
        net.params[:] = v
        ctx.check(close(net.params, v), 'inplace', 'in-place write', history=hist)
    elif op == 'part-inplace':
        for p in parts(net):
            p.params[:] = [0.3 * ((i * 5 + step) % 7) - 0.8 for i in range(p.paramdim)]
    elif op in ('assign', 'assign-list'):
        v = [0.2 * ((i * 3 + step) % 11) - 1 for i in range(n)]
        arg = np.array(v) if op == 'assign' else v
        net._setParameters(arg)
        ctx.check(close(net.params, v) and close(arg, v), op, 'assigned parameters', got=net.params, want=v, history=hist)
    elif op == 'refused':
        # the vector of a part belongs to the network: assigning another one to the part is refused
        before = np.array(net.params)
        for p in parts(net):
            try:
                p._setParameters(np.zeros(p.paramdim))
            except Exception:
                pass
            else:
                ctx.fail('refused', 'the parameters of an owned part were replaced', history=hist)
        ctx.check(close(net.params, before), 'refused:effect', 'a refused assignment had an effect', history=hist)
    elif op == 'randomize':
        before = np.array(net.params)
        net.randomize()
        ctx.check(n == 0 or not close(net.params, before), 'randomize', 'randomising changed nothing', history=hist)
        ctx.check(not np.any(net.derivs), 'randomize:derivs', 'derivatives after randomising', history=hist)
    elif op == 'mutate':
        net.mutate()
    elif op == 'clear':
        net.derivs[:] = 3.
        net.resetDerivatives()
        ctx.check(all(not np.any(p.derivs) for p in parts(net)), 'clear', 'cleared derivatives', history=hist)
    elif op == 'train':
        before = np.array(net.params)
        train(net)
        ctx.check(not close(net.params, before, 1e-13), 'train', 'a training step changed no weight', history=hist)
    elif op in ('add-conn', 'add-module'):
        objs = find(net, spec)
        k = 'x%d' % step
        old = {p.name: np.array(p.params) for p in parts(net)}
        if op == 'add-conn':
            c = R.conn('full', 'i', 'o', name='a' + k)
            spec['conns'].append(c)
            net.addConnection(R.make_conn(c, objs))
        else:
            m = (k, 'mdlstmp', 1, None)
            c = R.conn('full', 'i', k, name='b' + k)
            c2 = R.conn('full', k, 'o', name='w' + k)
            spec['mods'].append(m)
            spec['conns'] += [c, c2]
            objs[k] = R.make_mod(m)
            net.addModule(objs[k])
            net.addConnection(R.make_conn(c2, objs))
            net.addConnection(R.make_conn(c, objs))
        net.sortModules()
        now = {p.name: np.array(p.params) for p in parts(net)}
        ctx.check(all(close(now[p], old[p]) for p in old), 'grow:keep', 'growing a network changed the values of old weights', history=hist)
    elif op == 'copy':
        return net.copy()
    elif op == 'deepcopy':
        return copy.deepcopy(net)
    elif op == 'pickle':
        return pickle.loads(pickle.dumps(net, step % 3))
    elif op == 'xml':
        from pybrain.tools.customxml.networkwriter import NetworkWriter
        from pybrain.tools.customxml.networkreader import NetworkReader
        f = os.path.join(tmp, 'n.xml')
        NetworkWriter.writeToFile(net, f)
        return NetworkReader.readFrom(f)
    elif op == 'sort':
        net.sortModules()
    elif op == 'resort-inner':
        # grow the nested network and sort both again
        if 'n' not in [m[0] for m in spec['mods']]:
            return None
        inner = find(net, spec)['n']
        ispec = [m for m in spec['mods'] if m[0] == 'n'][0][2]
        c = R.conn('full', 'i', 'o', name='in%d' % step)
        ispec['conns'].append(c)
        inner.addConnection(R.make_conn(c, find(inner, ispec)))
        inner.sortModules()
        net.sortModules()
    return net


def explore(ctx, which, depth, first):
    tmp = tempfile.mkdtemp(prefix='n04')
    try:
        def replay(h):
            spec = copy.deepcopy(spec_of(which))
            net, objs = R.build(spec)
            R.install(objs, R.values(spec))
            hist = [which] + [OPS[o] for o in h]
            origins = []
            for step, o in enumerate(h):
                before = np.array(net.params), np.array(net.derivs)
                nxt = apply(ctx, OPS[o], net, spec, step, tmp, hist)
                if nxt is None:
                    return None
                if nxt is not net:
                    ctx.check(close(nxt.params, before[0]) or OPS[o] == 'xml', 'copy:' + OPS[o], 'parameters of the copy', history=hist)
                    origins.append((net, copy.deepcopy(spec), before))
                net = nxt
            key = '%s:%s' % (which, OPS[h[-1]])
            ok = linked(ctx, key, net, hist)
            if ok:
                function(ctx, key, net, spec, hist)
            for org, s, (p, d) in origins:
                ctx.check(close(org.params, p) and close(org.derivs, d), key + ':origin', 'the original changed with its copy', history=hist)
            if origins:
                linked(ctx, key + ':origin', origins[-1][0], hist)
                function(ctx, key + ':origin', origins[-1][0], origins[-1][1], hist)
            ctx.trace()
            if len(h) == 2 and ctx.traces < 3:
                ctx.sample(hist)
            return h
        history.bfs(ctx, len(OPS), depth, replay, first=first, prune=False)
    finally:
        shutil.rmtree(tmp)


def construction(ctx, part, parts_):
    """every order of adding modules and connections and of sorting in between"""
    spec = dict(mods=[('i', 'linear', 1, None), ('md', 'mdlstmp', 1, None), ('o', 'linear', 1, None)], ins=['i'], outs=['o'],
                conns=[R.conn('full', 'i', 'md', name='c1'), R.conn('sfull', 'md', 'o', (0, 1, 0, None), name='s1', mother='mo', nparams=1), R.conn('sfull', 'i', 'o', name='s2', mother='mo', nparams=1)])
    vals = R.values(spec)
    from pybrain.structure import FeedForwardNetwork
    # connections can only be sorted with both ends present
    for mo in itertools.permutations(range(3)):
        for co in itertools.permutations(range(3)):
            for cut in range(4):
                if (sum(mo[i] * 3 ** i for i in range(3)) + sum(co) + cut) % parts_ != part:
                    continue
                net = FeedForwardNetwork()
                objs = {m[0]: R.make_mod(m) for m in spec['mods']}
                for k in mo:
                    n = spec['mods'][k][0]
                    (net.addInputModule if n == 'i' else net.addOutputModule if n == 'o' else net.addModule)(objs[n])
                hist = [mo, co, cut]
                for j, k in enumerate(co):
                    if j == cut:
                        net.sortModules()
                        linked(ctx, 'construction', net, hist)
                    c = spec['conns'][k]
                    objs[c[4]['name']] = R.make_conn(c, objs)
                    net.addConnection(objs[c[4]['name']])
                net.sortModules()
                R.install(objs, vals)
                linked(ctx, 'construction', net, hist)
                function(ctx, 'construction', net, spec, hist)
                ctx.state((mo, co, cut))
                ctx.trace()


def roots(ctx):
    """deep copies and pickles that start from a part, a trainer, a list or a data structure holding the network"""
    from pybrain.supervised import BackpropTrainer
    from pybrain.datasets import SupervisedDataSet
    for which in ('ff', 'rec', 'nested'):
        for how in ('deepcopy', 'pickle'):
            for root in ('trainer', 'list', 'dict', 'module', 'owner'):
                spec = spec_of(which)
                net, objs = R.build(spec)
                R.install(objs, R.values(spec))
                dup = copy.deepcopy if how == 'deepcopy' else lambda o: pickle.loads(pickle.dumps(o, 2))
                hist = [which, how, root]
                if root == 'trainer':
                    n2 = dup(BackpropTrainer(net, SupervisedDataSet(net.indim, net.outdim))).module
                elif root == 'list':
                    n2 = dup([net, net])[1]
                elif root == 'dict':
                    n2 = dup({'a': {'net': net}})['a']['net']
                elif root == 'module':
                    # the network is reached through its nested network's owner
                    if which != 'nested':
                        continue
                    n2 = dup(objs['n']).owner
                else:
                    if which != 'nested':
                        continue
                    n2 = dup([objs['n2'], net])[1]
                linked(ctx, 'root:%s:%s' % (how, root), n2, hist)
                function(ctx, 'root:%s:%s' % (how, root), n2, spec, hist)
                linked(ctx, 'root:%s:%s:original' % (how, root), net, hist)
                ctx.state((which, how, root))
                ctx.trace()


def jobs(tier, seed):
    deep = tier == 'thorough'
    js = [('construction-%d' % i, construction, (i, 2)) for i in range(2)] + [('roots', roots, ())]
    for w in ('ff', 'rec', 'nested'):
        for o in range(len(OPS)):
            js.append(('%s-%s' % (w, OPS[o]), explore, (w, 4 if deep else 3, [o])))
    return js
