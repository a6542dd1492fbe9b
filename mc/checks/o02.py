"""For every optimiser: every sequence of objective answers over a 2-3 value alphabet, answered once as fitness to
maximise and, negated, as cost to minimise, with the direction given at construction, before or after the objective is
set, flipped back and forth or deduced from the evaluator, and with the starting point given as list, float or integer
array, parameter container, network or not at all: all runs with the same scripted draws must visit the same points,
report the mirrored result and leave their arguments alone."""

from numpy import array, ndarray
from mc.choice import explore
from mc.core import StopJob
from mc import optlib
from mc.optlib import vec, draws
from pybrain.structure.parametercontainer import ParameterContainer
from pybrain.rl.environments.fitnessevaluator import FitnessEvaluator
from pybrain.rl.environments.functions.function import FunctionEnvironment
from pybrain.structure.networks import FeedForwardNetwork
from pybrain.structure.modules import LinearLayer
from pybrain.structure.connections import FullConnection
from pybrain.structure.evolvables.maskedparameters import MaskedParameters

ASSUMPTIONS = ['the objective is a function of the point alone', 'fitness maximisers see the same draws in both directions (draws are scripted)',
               'rank-one NES is used in two dimensions or more',
               'a direction set after construction is set before learning starts']
VALS = [1.0, -2.0, 2.0]


def build(dim, kind):
    """the start argument"""
    if kind == 'list':
        return [1.0, -2.0, 2.0][:dim]
    if kind == 'ilist':
        return [1, -2, 2][:dim]
    if kind == 'vec':
        return array(VALS[:dim])
    if kind == 'int':
        return array([1, -2, 2][:dim])
    if kind == 'pc':
        pc = ParameterContainer(dim)
        pc._setParameters(array(VALS[:dim]))
        return pc
    n = FeedForwardNetwork()
    n.addInputModule(LinearLayer(dim, name='i'))
    n.addOutputModule(LinearLayer(1, name='o'))
    n.addConnection(FullConnection(n['i'], n['o'], name='c'))
    n.sortModules()
    n._setParameters(array(VALS[:dim]))
    return n


def content(x):
    return (type(x).__name__, [float(v) for v in x]) if isinstance(x, (list, ndarray)) else (type(x).__name__, [float(v) for v in x.params])


def full(x):
    """all parameters of the evaluated object, masked ones as zeros"""
    if isinstance(x, MaskedParameters):
        return tuple(float(v) for v in x.mask * x.maskableParams)
    return vec(x)


class Env(FunctionEnvironment):
    desiredValue = None


def run(c, answers, kind, sign, settle, ev, n, limit):
    memo, rec = {}, []

    def f(x):
        p = full(x)
        if p not in memo:
            memo[p] = answers(len(memo))
        rec.append(p)
        return sign * memo[p]
    minimize = sign < 0
    e, args = f, dict(c.kw, maxEvaluations=limit)
    if ev == 'fitness':
        e = FitnessEvaluator()
        e.f, e.toBeMinimized = f, minimize
    elif ev == 'function':
        e = Env(c.dim)
        e.f, e.toBeMinimized = f, minimize
        if c.name.startswith('GA'):
            e.xbound = None
    if kind == 'none' and ev != 'function':
        args['numParameters'] = c.dim
    with draws(n):
        # a new container draws random parameters first, just as the one does in which the optimiser wraps vectors
        x0 = build(c.dim, kind) if kind != 'none' else None
        before = content(x0) if x0 is not None else None
        if settle == 'kw' and ev == 'call':
            args['minimize'] = minimize
        if settle == 'wrong':
            args['minimize'] = not minimize
        if settle == 'late':
            o = c.cls(**args)
            o.minimize = minimize
            o.setEvaluator(e, x0)
        else:
            o = c.cls(e, x0, **args)
        if settle in ('after', 'wrong'):
            o.minimize = minimize
        elif settle == 'twice':
            o.minimize = minimize
            o.minimize = not minimize
            o.minimize = minimize
        x, v = o.learn()
    after = content(x0) if x0 is not None else None
    # what a further change of the result object does to the start is part of "never modified"
    return dict(points=rec, best=full(x), value=sign * v if v is not None else None, kept=before == after and x is not x0,
                kind='container' if isinstance(x, ParameterContainer) else 'vector', n=o.numEvaluations, memo=memo)


VARIANTS = [(s, settle, 'vec', 'call') for s in (1, -1) for settle in ('kw', 'late', 'after', 'wrong', 'twice')] \
    + [(s, 'kw', k, 'call') for s in (1, -1) for k in ('list', 'ilist', 'int', 'pc', 'net')] \
    + [(s, 'kw', 'vec', e) for s in (1, -1) for e in ('fitness', 'function')] + [(-1, 'after', 'pc', 'call'), (-1, 'wrong', 'net', 'call')]


def mirror_job(ctx, name, dim, n, limit, menu, free):
    c = optlib.withdim(name, dim)

    def body(ch):
        picked = []

        frozen = [False]

        def answers(k):
            if k >= (len(picked) if frozen[0] else free):
                return menu[k % 2]
            while len(picked) <= k:
                picked.append(menu[ch.pick(len(menu))])
            return picked[k]
        base = '%s:dim=%d:draws=%d:' % (name, dim, n)
        ok, ref = ctx.guard('crash:' + base + '%s' % picked, run, c, answers, 'vec', 1, 'kw', 'call', n, limit)
        if not ok:
            raise StopJob()
        depth = len(picked)
        frozen[0] = True
        ctx.trans(len(ref['points']))
        ctx.trace()
        # making a network takes other random draws than making a plain container: these runs are compared to each other
        ok, net = ctx.guard('crash:net:' + base + '%s' % picked, run, c, answers, 'net', 1, 'kw', 'call', n, limit)
        if not ok:
            raise StopJob()
        if not (c.name.startswith('GA') or c.name.startswith('PSO') or c.name.startswith('Weight') or c.name.startswith('Random')):
            ctx.check(net['points'][:c.init] == ref['points'][:c.init] or 'emetic' in c.name or c.init > 1, 'net start:' + base, 'starts from the parameters of the network', got=net['points'][:1], want=ref['points'][:1])
        vecref = ref
        for s, settle, kind, ev in VARIANTS[1:]:
            ref = vecref if kind != 'net' else net
            cfg = base + '%s:%s:%s:%s:%s' % ('min' if s < 0 else 'max', settle, kind, ev, picked[:depth])
            ok, r = ctx.guard('crash:' + cfg, run, c, answers, kind, s, settle, ev, n, limit)
            if not ok:
                raise StopJob()
            good = ctx.check(r['points'] == ref['points'], 'points:' + cfg, 'visits the same points', got=r['points'], want=ref['points'])
            good = ctx.check(r['value'] == ref['value'] and r['best'] == ref['best'], 'result:' + cfg, 'reports the mirrored result',
                             got=[r['best'], r['value']], want=[ref['best'], ref['value']], seen=ref['memo']) and good
            good = ctx.check(r['n'] == ref['n'], 'count:' + cfg, 'same number of evaluations', got=r['n'], want=ref['n']) and good
            good = ctx.check(r['kept'], 'argument:' + cfg, 'the starting point given is left as it was') and good
            if kind in ('pc', 'net'):
                good = ctx.check(r['kind'] == 'container', 'kind:' + cfg, 'a container start gives a container') and good
            if not good:
                raise StopJob()
            ctx.trans(len(r['points']))
            ctx.trace()
        nokind = [run(c, answers, 'none', s, 'kw', ev, n, limit) for s in (1, -1) for ev in ('call', 'function')]
        for r in nokind[1:]:
            cfg = base + 'random start:%s' % picked
            ctx.check(r['points'] == nokind[0]['points'] and r['value'] == nokind[0]['value'], 'random start:' + cfg, 'drawn starting points: same points and result',
                      got=[r['points'], r['value']], want=[nokind[0]['points'], nokind[0]['value']])
        ctx.trace(len(nokind))
        ctx.state((name, dim, n, tuple(picked)))
        ctx.outcome((vecref['best'], vecref['value']))
        ctx.sample(dict(config=base, answers=picked, visited=vecref['points'], best=vecref['best'], value=vecref['value']))

    explore(body)


def jobs(tier, seed):
    T = tier != 'quick'
    out = []
    M2, M3 = (0.0, 1.0), (0.0, 1.0, 2.0)
    for c in optlib.confs():
        for dim in ((1, 2, 3) if c.name != 'Rank1NES' else (2, 3)):
            if not T and dim == 3 and (c.name.split(':')[0] in ('ExactNES', 'OriginalNES', 'VanillaNES') or 'mixing' in c.name):
                continue
            limit = c.init + 2 * optlib.stepsize(c.name, dim) + (2 if c.name.startswith('NelderMead') else 0)
            deep = limit <= 4
            for n in ((seed % 7, seed % 7 + 8, seed % 7 + 21) if T else (seed % 7,)):
                menu = M3 if deep or (T and limit < 7) else M2
                out.append(('mirror:%s:dim=%d:draws=%d' % (c.name, dim, n), mirror_job, (c.name, dim, n, limit + (1 if T else 0), menu, 7 if T else 5)))
    return out
