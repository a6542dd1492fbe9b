"""Evolino on the real classes: every history of operations on a population against a dictionary; selection, reproduction and burst
mutation for every size, fitness assignment and number of parents; every draw of the combination of chromosomes; variates and genome
manipulation over a grid of draws and every nested shape; every history of washing out, generating and resetting on small networks
against a direct computation; the regression of the output weights; every history of fitness gains through the trainer."""

import itertools, math
from numpy import array, dot, zeros
from mc import rng
from mc.choice import explore
from pybrain.datasets import SequentialDataSet
from pybrain.structure import LSTMLayer, LinearLayer, BiasUnit, RecurrentNetwork
from pybrain.structure.modules.evolinonetwork import EvolinoNetwork
from pybrain.supervised.evolino.gpopulation import SimplePopulation
from pybrain.supervised.evolino.population import EvolinoPopulation, EvolinoSubPopulation
from pybrain.supervised.evolino.individual import EvolinoSubIndividual, EvolinoIndividual
from pybrain.supervised.evolino.gfilter import Randomization, SimpleMutation
from pybrain.supervised.evolino.filter import EvolinoEvaluation, EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation
from pybrain.supervised.evolino.variate import UniformVariate, CauchyVariate, GaussianVariate
from pybrain.supervised.trainers.evolino import EvolinoTrainer

ASSUMPTIONS = ['at least one individual of a sub-population survives selection', 'sequences are long enough for one step of washout and one of training',
               'an individual is added to a population once', 'networks have the shape the constructor gives them']
NONE = -float('inf')


class Zero(object):
    def pick(self, n):
        return 0


def close(a, b, tol=1e-9):
    a, b = array(a, dtype=float).ravel(), array(b, dtype=float).ravel()
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1., abs(y)) for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------ populations
def populations(ctx, depth):
    ops = [('toggle', i) for i in range(3)] + [('fit', i, v) for i in range(3) for v in (0., 1.)] + [('clear',)] + [('drop', k) for k in (0, 1, 2)]

    def run(ch):
        inds = [EvolinoSubIndividual([float(i)]) for i in range(3)]
        p = SimplePopulation()
        model = {}
        log = []
        for _ in range(depth):
            op = ch.of([o for o in ops if o[0] != 'fit' or o[1] in model])
            log.append(op)
            if op[0] == 'toggle':
                ok, _ = ctx.guard('population', p.removeIndividual if op[1] in model else p.addIndividual, inds[op[1]])
                if op[1] in model:
                    del model[op[1]]
                else:
                    model[op[1]] = NONE
            elif op[0] == 'fit':
                ok, _ = ctx.guard('population', p.setIndividualFitness, inds[op[1]], op[2])
                model[op[1]] = op[2]
            elif op[0] == 'clear':
                ok, _ = ctx.guard('population', p.clearFitness)
                model = dict((i, NONE) for i in model)
            else:
                ok, _ = ctx.guard('population', p.removeWorstIndividuals, op[1])
                if ok:
                    left = [i for i in model if inds[i] in p.getIndividuals()]
                    want = sorted(model.values(), reverse=True)[:max(0, len(model) - op[1])]
                    ctx.check(sorted((model[i] for i in left), reverse=True) == want, 'worst', 'removing the worst individuals leaves the wrong ones', log=log, left=left, fitness=model)
                    model = dict((i, model[i]) for i in left)
            if not ok:
                return
            ctx.trans()
            info = dict(log=list(log), model=dict(model))
            got = p.getIndividuals()
            ctx.check(got == set(inds[i] for i in model) and p.getIndividualsN() == len(model), 'members', 'wrong members', got=len(got), **info)
            got.clear()
            ctx.check(p.getFitnessMap() == dict((inds[i], v) for i, v in model.items()), 'fitness', 'wrong fitness values', **info)
            for i in model:
                ctx.check(p.getIndividualFitness(inds[i]) == model[i], 'fitness', 'wrong fitness value', **info)
            order = sorted(model.values(), reverse=True)
            for n in range(len(model) + 2):
                for f, want in ((p.getBestIndividuals, order[:n]), (p.getBestIndividualsSorted, order[:n]), (p.getWorstIndividuals, order[max(0, len(order) - n):])):
                    ok, r = ctx.guard('ranking', f, n)
                    if ok:
                        vals = [model[inds.index(x)] for x in r]
                        ctx.check((vals if f == p.getBestIndividualsSorted else sorted(vals, reverse=True)) == want and len(set(map(id, r))) == len(r), 'ranking',
                                  'not the n best / worst individuals', n=n, function=f.__name__, got=vals, want=want, **info)
            if model:
                ok, r = ctx.guard('maximum', p.getMaxFitness)
                if ok:
                    ctx.check(r == order[0], 'maximum', 'wrong maximal fitness', got=r, **info)
                if NONE not in model.values():
                    ctx.check(abs(p.getAverageFitness() - sum(order) / len(order)) < 1e-12, 'average', 'wrong average fitness', got=p.getAverageFitness(), **info)
            ctx.state(tuple(sorted(model.items())))
        ctx.outcome(tuple(sorted(model)))
        ctx.trace()
    explore(run)


# ------------------------------------------------------------------------------------------ operators
class Shift(object):
    x0 = 0.

    def getSample(self, *a):
        return self.x0 + 0.25


class Subs(object):
    def __init__(self, subs):
        self.subs = subs

    def getSubPopulations(self):
        return list(self.subs)


def filled(fits, start):
    sp = EvolinoSubPopulation([0., [1.]], len(fits))
    for k, i in enumerate(sorted(sp.getIndividuals(), key=lambda i: i.id)):
        i.setGenome([float(start + k), [float(start + k)]])
        sp.setIndividualFitness(i, fits[k])
    return sp


def after(ctx, sp, fits, start, keep, key, info, refill):
    """the best `keep` survive unchanged; with refill the rest are mutated copies of the best ones"""
    old, new = [], []
    for i in sp.getIndividuals():
        g = i.getGenome()
        ctx.check(len(g) == 2 and g[1] == [g[0]], key, 'a genome lost its structure', genome=g, **info)
        (old if g[0] == int(g[0]) else new).append(i)
    fit = lambda i: fits[int(i.getGenome()[0]) - start]
    order = sorted(fits, reverse=True)
    ctx.check(sorted(map(fit, old), reverse=True) == order[:keep] and len(set(i.getGenome()[0] for i in old)) == keep, key, 'the survivors are not the best individuals',
              got=sorted(map(fit, old)), keep=keep, **info)
    ctx.check(all(sp.getIndividualFitness(i) == fit(i) for i in old), key, 'the fitness of a survivor changed', **info)
    if not refill:
        ctx.check(not new, key, 'selection makes new individuals', **info)
        return
    free = len(fits) - keep
    ctx.check(len(new) == free, key, 'the sub-population is not filled up', got=len(new), want=free, **info)
    parents = {}
    for i in new:
        x = i.getGenome()[0] - 0.25
        ctx.check(x == int(x) and any(o.getGenome()[0] == x for o in old), key, 'a child is not a copy of a survivor, mutated once', genome=i.getGenome(), **info)
        ctx.check(sp.getIndividualFitness(i) == NONE, key, 'a child has a fitness before it is evaluated', **info)
        parents[x] = parents.get(x, 0) + 1
    if free and len(new) == free:
        n = min(free, keep)
        vals = sorted((fits[int(x) - start] for x in parents), reverse=True)
        ctx.check(vals == order[:n], key, 'the parents are not the best individuals', got=vals, **info)
        ctx.check(max(parents.values()) - min(parents.values()) <= 1, key, 'children are not spread evenly over the parents', got=parents, **info)
        more = [fits[int(x) - start] for x in parents if parents[x] > free // n]
        ctx.check(sorted(more, reverse=True) == order[:len(more)], key, 'additional children do not come from the best', got=parents, **info)


def operators(ctx, top):
    for n in range(1, top + 1):
        for fits in itertools.product((NONE, 0., 1.) if n > 3 else (NONE, 0., 1., 2.), repeat=n):
            other = fits[1:] + fits[:1]
            for parents in [None] + list(range(1, n + 1)):
                info = dict(fitness=fits, parents=parents)
                subs = [filled(fits, 0), filled(other, 100)]
                sel = EvolinoSelection()
                sel.nParents = parents
                keep = max(1, n // 4) if parents is None else parents
                ok, _ = ctx.guard('selection', sel.apply, Subs(subs))
                if not ok:
                    continue
                ctx.trans()
                after(ctx, subs[0], fits, 0, keep, 'selection', info, False)
                after(ctx, subs[1], other, 100, keep, 'selection', info, False)
                if not all(s.getIndividualsN() for s in subs):
                    continue
                ok, _ = ctx.guard('reproduction', EvolinoReproduction(mutationVariate=Shift()).apply, Subs(subs))
                if ok:
                    ctx.trans()
                    after(ctx, subs[0], fits, 0, keep, 'reproduction', info, True)
                    after(ctx, subs[1], other, 100, keep, 'reproduction', info, True)
                ctx.state(('select', fits, parents))
                ctx.trace()
            subs = [filled(fits, 0), filled(other, 100)]
            ok, _ = ctx.guard('burst', EvolinoBurstMutation(mutationVariate=Shift()).apply, Subs(subs))
            if ok:
                ctx.trans()
                after(ctx, subs[0], fits, 0, 1, 'burst', dict(fitness=fits), True)
                after(ctx, subs[1], other, 100, 1, 'burst', dict(fitness=fits), True)
            ctx.state(('burst', fits))
        ctx.outcome(n)


# ------------------------------------------------------------------------------------------ combinations
def combinations(ctx, shapes):
    for nchrom, size, comb, vals in shapes:
        def run(ch):
            proto = EvolinoSubIndividual([[9. + k] * (k + 1) for k in range(nchrom)])
            with rng.control(Zero(), unit=[0.75]):
                ok, p = ctx.guard('start', EvolinoPopulation, proto, size, comb, Randomization(-2., 2.))
            if not ok:
                return
            info = dict(chromosomes=nchrom, size=size, combinations=comb)
            ctx.check(proto.getGenome() == [[9. + k] * (k + 1) for k in range(nchrom)], 'start', 'the prototype is changed', **info)
            subs = p.getSubPopulations()
            ctx.check(len(subs) == nchrom and all(s.getIndividualsN() == size == s.getMaxNIndividuals() for s in subs), 'start', 'wrong sub-populations', **info)
            for k, s in enumerate(subs):
                for i in s.getIndividuals():
                    ctx.check(close(i.getGenome(), [1.] * (k + 1)), 'start', 'wrong initial genome', got=i.getGenome(), **info)
            for k, s in enumerate(subs):
                for j, i in enumerate(sorted(s.getIndividuals(), key=lambda i: i.id)):
                    i.setGenome([10. * k + j] * (k + 1))
            with rng.control(ch):
                ok, inds = ctx.guard('combination', p.getIndividuals)
            if not ok:
                return
            ctx.trans()
            ctx.check(len(inds) == size * comb, 'combination', 'wrong number of individuals', got=len(inds), **info)
            count = {}
            for x in inds:
                got = x.getSubIndividuals()
                ctx.check(len(got) == nchrom and all(g in subs[k].getIndividuals() for k, g in enumerate(got)), 'combination', 'an individual takes parts of a wrong sub-population', **info)
                ctx.check(x.getGenome() == [g.getGenome() for g in got], 'genome', 'the genome is not that of the parts', **info)
                x.getGenome()[0][0] = 77.
                ctx.check(all(77. not in g.getGenome() for g in got), 'genome', 'the genome is shared with the parts', **info)
                for g in got:
                    count[g] = count.get(g, 0) + 1
            ctx.check(len(count) == nchrom * size and set(count.values()) == {comb}, 'combination', 'not every part is used equally often', got=sorted(count.values()), **info)
            best = {}
            for x in sorted(inds, key=lambda x: x.getGenome()):
                v = ch.of(vals)
                p.setIndividualFitness(x, v)
                for g in x.getSubIndividuals():
                    best[g] = max(best.get(g, NONE), v)
            for s in subs:
                ctx.check(s.getFitnessMap() == dict((i, best[i]) for i in s.getIndividuals()), 'shared-fitness', 'a part does not get the best fitness of its individuals', **info)
            p.clearFitness()
            ctx.check(all(v == NONE for s in subs for v in s.getFitnessMap().values()), 'shared-fitness', 'clearing leaves fitness values', **info)
            ctx.state((nchrom, size, comb, tuple(sorted(str(x.getGenome()) for x in inds))))
            ctx.trace()
        explore(run)
    ctx.outcome('done')


# ------------------------------------------------------------------------------------------ variates and genomes
def leaves(g):
    return [x for v in g for x in (leaves(v) if isinstance(v, list) else [v])]


def shape(g):
    return [shape(v) if isinstance(v, list) else 0 for v in g]


def genomes(depth, width):
    if depth == 0:
        return [1.5]
    inner = genomes(depth - 1, width) + ([1.5] if depth > 1 else [])
    return [list(x) for k in range(width + 1) for x in itertools.product(inner, repeat=k)]


def variates(ctx, deep):
    us = [0.01, 0.25, 0.5, 0.75, 0.99]
    for u in us:
        for x0, al in itertools.product((-1., 0., 2.), (0.1, 1., 3.)):
            with rng.control(Zero(), unit=[u], gauss=[u * 4 - 2]):
                for v, want in ((CauchyVariate(x0, al), x0 + al * math.tan(math.pi * (u - .5))), (GaussianVariate(x0, al), x0 + al * (u * 4 - 2)), (UniformVariate(x0, x0 + al), x0 + al * u)):
                    for args, w in (((), want),) + ((((5., 7.), 5. + 2. * u),) if isinstance(v, UniformVariate) else (((4., 2.), 4. + 2. * (want - x0) / al),)):
                        ok, r = ctx.guard('variate', v.getSample, *args)
                        if ok:
                            ctx.check(close([r], [w]), 'variate', 'wrong sample', kind=v.__class__.__name__, got=r, want=w, u=u, x0=x0, alpha=al)
                        ctx.trans()
                        ctx.state((v.__class__.__name__, u, x0, al, args))
    import json
    class Pop(object):
        def __init__(self, inds):
            self.inds = inds

        def getIndividuals(self):
            return set(self.inds)
    for g in genomes(2 if not deep else 3, 2):
        for what in ('mutation', 'random'):
            a, b = EvolinoSubIndividual(json.loads(json.dumps(g))), EvolinoSubIndividual(json.loads(json.dumps(g)))
            serial = itertools.count(1)
            with rng.control(Zero(), unit=lambda: (next(serial) % 97) / 97., gauss=lambda: float(next(serial))):
                f = SimpleMutation() if what == 'mutation' else Randomization(-3., 5.)
                ok, _ = ctx.guard(what, f.apply, Pop([a, b]))
            if ok:
                n = len(leaves(g))
                vals = leaves(a.getGenome()) + leaves(b.getGenome())
                draws = [1.5 + 0.1 * k for k in range(1, 2 * n + 1)] if what == 'mutation' else [-3. + 8. * (k % 97) / 97. for k in range(1, 2 * n + 1)]
                ctx.check(shape(a.getGenome()) == shape(g) == shape(b.getGenome()) and close(sorted(vals), sorted(draws)), what, 'not every value is drawn once', genome=g,
                          got=(a.getGenome(), b.getGenome()))
            ctx.trans()
            ctx.state((what, str(g)))
            ctx.trace()
    ctx.outcome('done')


# ------------------------------------------------------------------------------------------ the network
def parts(net):
    """(bias weights, input weights, recurrent weights, output connection) of the cells, found by what they connect"""
    n = [v for v in net.__dict__.values() if isinstance(v, RecurrentNetwork)][0]
    lstm = [m for m in n.modules if isinstance(m, LSTMLayer)][0]
    rec = [c for c in n.recurrentConns][0]
    conns = [c for l in n.connections.values() for c in l]
    bias = [c for c in conns if isinstance(c.inmod, BiasUnit)][0]
    inp = [c for c in conns if c.outmod is lstm and c is not bias][0]
    out = [c for c in conns if c.inmod is lstm][0]
    return bias, inp, rec, out


sig = lambda x: 1. / (1. + math.exp(-x))


class Model(object):
    def __init__(self, net):
        b, i, r, o = parts(net)
        self.h = o.indim
        self.o = o.outdim
        self.wb, self.wi, self.wr, self.wo = [array(c.params).reshape(c.outdim, c.indim).copy() for c in (b, i, r, o)]
        self.f = net.backprojectionFactor
        self.reset()

    def reset(self):
        self.hid, self.cell, self.last = zeros(self.h), zeros(self.h), zeros(self.o)

    def step(self):
        x = dot(self.wi, self.f * self.last) + self.wb[:, 0] + dot(self.wr, self.hid)
        h = self.h
        cell, hid = zeros(h), zeros(h)
        for k in range(h):
            cell[k] = sig(x[k]) * math.tanh(x[2 * h + k]) + sig(x[h + k]) * self.cell[k]
            hid[k] = sig(x[3 * h + k]) * math.tanh(cell[k])
        self.cell, self.hid = cell, hid
        self.last = dot(self.wo, hid)
        return self.last

    def washout(self, seq):
        res = []
        for v in seq:
            self.step()
            res.append(self.hid)
            self.last = array(v, dtype=float)
        return array(res)

    def generate(self, n):
        return array([self.step() for _ in range(n)])


def weights(net, k):
    b, i, r, o = parts(net)
    for c, s in ((b, 1), (i, 2), (r, 3), (o, 5)):
        c.params[:] = [((j * 7 + s * 3 + k * 5) % 11 - 5) / 4. for j in range(len(c.params))]


def network(ctx, configs, depth):
    for outdim, hid, factor, k in configs:
        vals = [[1.], [-.5]] if outdim == 1 else [[1., 0.], [-.5, 2.]]
        seqs = [list(s) for n in (1, 2) for s in itertools.product(vals, repeat=n)][:4] + [vals * 3]
        ops = [('reset',)] + [('washout', s) for s in seqs] + [('generate', n) for n in (1, 3)] + [('extrapolate', seqs[0], 2), ('extrapolate', seqs[-1], 1), ('genome',), ('output',)]

        def run(ch):
            net = EvolinoNetwork(outdim, hid)
            net.backprojectionFactor = factor
            weights(net, k)
            m = Model(net)
            log = []
            turn = 0
            for _ in range(depth):
                op = ch.of(ops)
                log.append(op)
                info = dict(outdim=outdim, hidden=hid, factor=factor, log=list(log))
                want = None
                if op[0] == 'reset':
                    ok, got = ctx.guard('network', net.reset)
                    m.reset()
                elif op[0] == 'washout':
                    given = array(op[1])
                    ok, got = ctx.guard('network', net.washout, given)
                    want = m.washout(op[1])
                    ctx.check(given.tolist() == op[1], 'argument', 'the sequence given is changed', **info)
                elif op[0] == 'generate':
                    ok, got = ctx.guard('network', net.generate, op[1])
                    want = m.generate(op[1])
                elif op[0] == 'extrapolate':
                    ok, got = ctx.guard('network', net.extrapolate, array(op[1]), op[2])
                    m.reset()
                    m.washout(op[1])
                    want = m.generate(op[2])
                elif op[0] == 'genome':
                    turn += 1
                    n = hid * 4 * (1 + outdim + hid) // hid
                    g = [[((c * n + j) * 5 + turn) % 13 / 6. - 1. for j in range(n)] for c in range(hid)]
                    before = [list(x) for x in g]
                    ok, got = ctx.guard('genome', net.setGenome, g)
                    if ok:
                        ctx.check(g == before, 'genome', 'the genome given is changed', **info)
                        ctx.check(close(net.getGenome(), g) and [len(x) for x in net.getGenome()] == [n] * hid, 'genome', 'the genome read is not the one set', got=net.getGenome(), want=g, **info)
                        keep = m.hid, m.cell, m.last
                        m = Model(net)
                        m.hid, m.cell, m.last = keep
                else:
                    turn += 1
                    W = array([[((i * hid + j) * 3 + turn) % 7 / 3. - 1. for j in range(hid)] for i in range(outdim)])
                    ok, got = ctx.guard('output', net.setOutputWeightMatrix, W)
                    if ok:
                        R = net.getOutputWeightMatrix()
                        ctx.check(R.shape == W.shape and close(R, W), 'output', 'the output matrix read is not the one set', **info)
                        m.wo = W
                if not ok:
                    return
                ctx.trans()
                if want is not None:
                    ctx.check(array(got).shape == want.shape and close(got, want, 1e-8), op[0], 'wrong sequence', got=array(got).tolist(), want=want.tolist(), **info)
                ctx.state((outdim, hid, k, tuple(round(float(x), 6) for x in list(m.hid) + list(m.last))))
            ctx.trace()
        explore(run)
        # a chromosome holds the weights into one cell, each once
        net = EvolinoNetwork(outdim, hid)
        n = 4 * (1 + outdim + hid)
        for c in range(hid):
            g = [[0.] * n for _ in range(hid)]
            g[c] = [float(j + 1) for j in range(n)]
            net.setGenome(g)
            got = []
            for con in parts(net)[:3]:
                w = array(con.params).reshape(4, hid, con.indim)
                got += list(w[:, c, :].ravel())
                ctx.check(not any(w[:, d, :].any() for d in range(hid) if d != c), 'chromosome', 'a chromosome reaches into another cell', cell=c, outdim=outdim, hidden=hid)
            ctx.check(sorted(got) == g[c], 'chromosome', 'a chromosome does not hold the weights into its cell', cell=c, outdim=outdim, hidden=hid)
            ctx.trans()
    ctx.outcome('done')


# ------------------------------------------------------------------------------------------ evaluation
def evaluation(ctx, deep):
    ratios = [((1, 2), 1. / 3), ((1., 1.), .5), (array([1., 3.]), .25), (0.5, .5), (1. / 3, 1. / 3), (None, 1. / 3)]
    for outdim, hid in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for lens in ((6,), (4, 7), (5, 4, 8)) if not deep else ((4,), (6,), (4, 7), (9, 4), (5, 4, 8), (8, 8, 4, 5)):
            ds = SequentialDataSet(0, outdim)
            seqs = []
            for s, n in enumerate(lens):
                ds.newSequence()
                seqs.append([])
                for t in range(n):
                    v = [((t * 3 + s * 5 + d * 7) % 8 - 4) / 3. for d in range(outdim)]
                    ds.addSample([], v)
                    seqs[-1].append(v)
            for ratio, share in ratios:
                for custom in (False, True):
                    net = EvolinoNetwork(outdim, hid)
                    weights(net, 1)
                    calls = []

                    def score(out, target):
                        calls.append((array(out), array(target)))
                        return -float(abs(array(out) - array(target)).sum())
                    kw = {}
                    if ratio is not None:
                        kw['wtRatio'] = ratio
                    if custom:
                        kw['evalfunc'] = score
                    info = dict(outdim=outdim, hidden=hid, lengths=lens, ratio=str(ratio), custom=custom)
                    ok, ev = ctx.guard('evaluation', EvolinoEvaluation, net, ds, **kw)
                    if not ok:
                        continue
                    with rng.control(Zero(), unit=[0.5]):
                        p = EvolinoPopulation(EvolinoSubIndividual(net.getGenome()), 2, 1)
                        serial = itertools.count(1)
                        for s in p.getSubPopulations():
                            for i in sorted(s.getIndividuals(), key=lambda i: i.id):
                                i.setGenome([((next(serial) * 7) % 13 - 6) / 3. for _ in i.getGenome()])
                        made = []
                        orig = p.getIndividuals
                        p.getIndividuals = lambda: made.extend(orig()) or list(made)
                        ok, _ = ctx.guard('evaluation', ev.apply, p)
                    if not ok:
                        continue
                    ctx.trans()
                    final = (net.getGenome(), array(net.getOutputWeightMatrix()).copy())
                    results = []
                    for x in made:
                        net.setGenome(x.getGenome())
                        net.setOutputWeightMatrix(zeros((outdim, hid)))
                        m = Model(net)
                        A, T, starts = [], [], []
                        for s in seqs:
                            cut = int(share * len(s) + 1e-9)
                            m.reset()
                            m.washout(s[:cut])
                            A += list(m.washout(s[cut:]))
                            T += s[cut:]
                            starts.append(cut)
                        A, T = array(A), array(T)
                        results.append((x, A, T, starts))
                    # the weights found for the best individual minimise the squared error; its fitness is that of the free-running outputs
                    ctx.check(len(p.getSubPopulations()) == hid, 'evaluation', 'not one sub-population per cell', **info)
                    ctx.check(not custom or len(calls) == len(made), 'evaluation', 'not one evaluation per individual', **info)
                    best = [r for r in results if close(r[0].getGenome(), final[0])]
                    ctx.check(bool(best), 'best', 'the network does not end with the genome of an individual', **info)
                    scores = []
                    for x, A, T, starts in results:
                        from numpy.linalg import lstsq
                        W = lstsq(A, T, rcond=None)[0].T
                        net.setGenome(x.getGenome())
                        m = Model(net)
                        m.wo = W
                        outs = []
                        for s, cut in zip(seqs, starts):
                            m.reset()
                            m.washout(s[:cut])
                            outs += list(m.generate(len(s) - cut))
                        outs = array(outs)
                        err = outs - T
                        scores.append(-float(abs(err).sum()) if custom else -float((err ** 2).mean()))
                        if best and x is best[0][0]:
                            ctx.check(close(final[1], W, 1e-6), 'regression', 'the output weights do not minimise the squared error', got=final[1].tolist(), want=W.tolist(), **info)
                    top = max(scores)
                    ctx.check(close([ev.max_fitness], [top], 1e-6), 'fitness', 'wrong maximal fitness', got=ev.max_fitness, want=top, **info)
                    if best:
                        ctx.check(close([max(s for s, r in zip(scores, results) if r[0] is best[0][0])], [top], 1e-6), 'best', 'the network does not end with the best individual', **info)
                    for s in p.getSubPopulations():
                        for i, v in s.getFitnessMap().items():
                            want = max([sc for sc, r in zip(scores, results) if i in r[0].getSubIndividuals()] or [NONE])
                            ctx.check(close([v], [want], 1e-6), 'fitness', 'wrong fitness of a part', got=v, want=want, **info)
                    ctx.state((outdim, hid, lens, str(ratio), custom))
                    ctx.trace()
    ctx.outcome('done')


# ------------------------------------------------------------------------------------------ the trainer
class Stub(object):
    def __init__(self, name, log, script=None):
        self.name, self.log, self.script = name, log, script
        self.max_fitness = NONE
        self.nParents = None

    def apply(self, population):
        self.log.append(self.name)
        if self.script is not None:
            self.max_fitness = self.script()


def dataset():
    ds = SequentialDataSet(0, 1)
    ds.newSequence()
    for t in range(8):
        ds.addSample([], [t % 3 / 2.])
    return ds


def trainer(ctx, depth):
    for patience in (1, 2, 3, None):
        def run(ch):
            log, gains = [], []

            def script():
                gains.append(ch.pick(3))
                return float(gains[-1])
            kw = dict(evaluation=Stub('e', log, script), selection=Stub('s', log), reproduction=Stub('r', log), burstMutation=Stub('b', log), subPopulationSize=2, nParents=1)
            if patience:
                kw['nBurstMutationEpochs'] = patience
            with rng.control(Zero(), unit=[0.5]):
                ok, t = ctx.guard('trainer', EvolinoTrainer, EvolinoNetwork(1, 1), dataset(), **kw)
                if not ok:
                    return
                ctx.check(t.selection.nParents == 1, 'trainer', 'the number of parents is not passed on')
                best, since, want = NONE, 0, []
                for _ in range(depth):
                    if patience and since >= patience:
                        want.append('b')
                        since = 0
                    want += ['e', 's', 'r']
                    ok, _ = ctx.guard('trainer', t.trainEpochs, 1)
                    if not ok:
                        return
                    ctx.trans()
                    if gains[-1] > best:
                        best, since = gains[-1], 0
                    else:
                        since += 1
                    ctx.check(''.join(log) == ''.join(want), 'epochs', 'wrong steps of evolution', got=''.join(log), want=''.join(want), patience=patience, fitness=list(gains))
                    ctx.state((patience, tuple(gains)))
            ctx.outcome(''.join(log))
            ctx.trace()
        explore(run)


def whole(ctx, deep):
    """the real parts together: sizes stay, fitness reported is that of the network, options arrive"""
    ds = dataset()
    for kw in ({}, dict(subPopulationSize=2), dict(subPopulationSize=3, nCombinations=1), dict(subPopulationSize=5, nParents=2, wtRatio=0.25), dict(wtRatio=(1, 1), mutationAlpha=0.5, backprojectionFactor=0.1),
               dict(subPopulationSize=3, nParents=3, nBurstMutationEpochs=1), dict(initialWeightRange=(-.5, .5), nBurstMutationEpochs=2)):
        for hid in (1, 2):
            with rng.control(Zero(), unit=itertools.cycle([.1, .7, .4, .9, .2, .6, .8]).__next__):
                net = EvolinoNetwork(1, hid)
                ok, t = ctx.guard('whole', EvolinoTrainer, net, ds, **kw)
                if not ok:
                    continue
                info = dict(options=str(kw), hidden=hid)
                lo, hi = kw.get('initialWeightRange', (-.1, .1))
                subs = t._population.getSubPopulations() if hasattr(t, '_population') else []
                size = kw.get('subPopulationSize', 8)
                ctx.check(all(lo <= w <= hi for s in subs for i in s.getIndividuals() for w in i.getGenome()), 'whole', 'initial weights out of range', **info)
                ctx.check(not subs or max(w for s in subs for i in s.getIndividuals() for w in i.getGenome()) > lo + .75 * (hi - lo), 'whole', 'initial weights do not fill their range', **info)
                ctx.check(net.backprojectionFactor == kw.get('backprojectionFactor', 0.01), 'whole', 'wrong backprojection factor', **info)
                r = kw.get('wtRatio', (1, 3))
                share = r if isinstance(r, float) else float(r[0]) / sum(r)
                cut = int(share * 8 + 1e-9)
                for e in range(2 if not deep else 4):
                    ok, _ = ctx.guard('whole', t.trainEpochs, 1)
                    if not ok:
                        break
                    ctx.trans()
                    ctx.check(all(s.getIndividualsN() == size for s in subs), 'whole', 'a sub-population changes its size', got=[s.getIndividualsN() for s in subs], **info)
                    seq = [t_ for t_ in ds.getSequence(0)[1]]
                    out = net.extrapolate(array(seq[:cut]), 8 - cut)
                    fit = -float(((out - array(seq[cut:])) ** 2).mean())
                    ctx.check(close([fit], [t.evaluation.max_fitness], 1e-6), 'whole', 'the network does not show the fitness reported', got=fit, want=t.evaluation.max_fitness, epoch=e, **info)
                    ctx.state((str(kw), hid, e))
                ctx.trace()
    ctx.outcome('done')


def jobs(tier, seed):
    q = tier == 'quick'
    shapes = [(1, 1, 1, (0.,)), (1, 3, 1, (0., 1.)), (2, 1, 2, (0., -1.)), (2, 2, 1, (NONE, -1., 1.)), (2, 2, 2, (-1., 1.)), (2, 3, 1, (0., 1.)), (3, 2, 1, (0., 1.))] + ([] if q else [(3, 2, 2, (0., 1.)), (2, 4, 1, (0., 1.))])
    nets = [(1, 1, 0.01, 0), (1, 2, 1., 1), (2, 1, .5, 2), (2, 2, -1., 3)]
    return [('populations', populations, (4 if q else 5,)), ('operators', operators, (4 if q else 5,)), ('combinations', combinations, (shapes,)), ('variates', variates, (not q,)),
            ('network-1', network, (nets[:2], 3 if q else 4)), ('network-2', network, (nets[2:], 3 if q else 4)), ('evaluation', evaluation, (not q,)), ('trainer', trainer, (5 if q else 7,)),
            ('whole', whole, (not q,))]
