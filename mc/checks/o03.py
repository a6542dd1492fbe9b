"""Evolution strategies, hill climbers and random search on individuals that record their own descent; genetic
algorithms on vectors whose genes reveal their origin; particle swarms against a reference model: every sequence of
objective answers over a small alphabet (with ties) x every outcome of the discrete random draws (shuffles, choices,
samples) or of the acceptance/mutation coins x configurations. Ranking functions on every fitness vector over a small
alphabet and all tournament draws."""

import math
from numpy import array, zeros
from mc.choice import explore, Chooser
from mc.core import StopJob
from mc import rng, optlib
import pybrain.optimization as po
from pybrain.optimization.populationbased.pso import ring, fullyConnected
from pybrain.structure.evolvables.evolvable import Evolvable
from pybrain.tools import rankingfunctions as rf

ASSUMPTIONS = ['ties between equally fit individuals may be broken either way', 'lambda is a multiple of mu (asserted by the code)',
               'linear top ranking selects at least two samples', 'tournament selection of GA is not implemented (documented)']


class World(object):
    def __init__(self, answer):
        self.born, self.evals, self.answer = [], [], answer       # born: (how, parent)

    def new(self, how, parent):
        self.born.append((how, parent))
        return len(self.born) - 1

    def __call__(self, ind):
        v = self.answer(ind.gid)
        self.evals.append((ind.gid, v))
        return v


class Ind(Evolvable):
    def __init__(self, world, gid):
        self.world, self.gid = world, gid

    def copy(self):
        return Ind(self.world, self.gid)

    def mutate(self):
        self.gid = self.world.new('mutated', self.gid)

    def randomize(self):
        self.gid = self.world.new('random', None)


def lineage(c, ch, answer, steps, perms, units=None, **kw):
    w = World(answer)
    marks = []
    with rng.control(ch, unit=units or rng.vdc(), gauss=rng.vdc_gauss(), perms=perms) as ctl:
        o = c(w, Ind(w, w.new('start', None)), **kw)
        marks.append(len(w.evals))
        o.listener = lambda e, v: marks.append(len(w.evals))
        res = o.learn(steps)
    return w, o, res, marks, ctl


def es_job(ctx, mu, lam, elitism, noisy, steps, menu, perms):
    base = 'ES(%d%s%d)%s' % (mu, '+' if elitism else ',', lam, ':noisy' if noisy else '')

    def body(ch):
        memo = {}

        def answer(g):
            if noisy:
                return menu[ch.pick(len(menu))]
            if g not in memo:
                memo[g] = menu[ch.pick(len(menu))]
            return memo[g]
        key = lambda: base + ':%s' % ''.join(map(str, ch.taken))
        ok, r = ctx.guard('crash:' + base, lineage, po.ES, ch, answer, steps, perms, mu=mu, lambada=lam, elitism=elitism, evaluatorIsNoisy=noisy)
        if not ok:
            raise StopJob()
        w, o, res, marks, _ = r
        size = mu + lam if elitism else lam
        first = w.evals[:marks[0]]
        ctx.check(len(first) == size and w.born[first[0][0]][0] == 'start' and all(w.born[g] == ('mutated', first[0][0]) for g, _ in first[1:])
                  and len(set(g for g, _ in first)) == size, 'initial:' + key(), 'the start and mutations of it form the first population', got=first, born=w.born)
        pop = list(first)
        hall = [max(v for _, v in pop)]
        halls = [set(g for g, v in pop if v == hall[0])]
        for a, b in zip(marks, marks[1:]):
            seg = w.evals[a:b]
            if noisy:
                re, seg = seg[:mu], seg[mu:]
                best = sorted((v for _, v in pop), reverse=True)[:mu]
                left = list(pop)
                vals = []
                for g, _ in re:
                    m = [x for x in left if x[0] == g]
                    if not ctx.check(bool(m), 're-evaluated:' + key(), 'the best of the population are evaluated again', got=re, want=pop):
                        raise StopJob()
                    left.remove(m[0])
                    vals.append(m[0][1])
                ctx.check(sorted(vals, reverse=True) == best, 're-evaluated:' + key(), 'the best of the population are evaluated again', got=re, want=pop)
                pop = list(re) + left
                parents_of = [w.born[g] for g, _ in seg]
                cand = pop
            parents_of = [w.born[g] for g, _ in seg]
            good = ctx.check(len(seg) == lam and all(how == 'mutated' for how, _ in parents_of), 'offspring:' + key(), 'each generation has lambda mutants', got=parents_of, want=lam)
            counts = {}
            for _, p in parents_of:
                counts[p] = counts.get(p, 0) + 1
            known = dict(pop)
            good = ctx.check(all(p in known for p in counts) and len(counts) == mu and set(counts.values()) == set([lam // mu]),
                             'shares:' + key(), 'each of the mu parents, all of the last population, has the same number of offspring', got=counts, pop=pop) and good
            if good:
                want = sorted((v for _, v in pop), reverse=True)[:mu]
                ctx.check(sorted((known[p] for p in counts), reverse=True) == want, 'parents:' + key(), 'the parents are the mu fittest', got=[(p, known[p]) for p in counts], want=want, pop=pop)
            else:
                raise StopJob()
            pop = ([(p, known[p]) for p in counts] if elitism else []) + list(seg)
            if not noisy:
                hall.append(max(v for _, v in pop))
                halls.append(set(g for g, v in pop if v == hall[-1]))
        if not noisy:
            ctx.check(len(o.hallOfFame) == len(halls) and all(x.gid in s for x, s in zip(o.hallOfFame, halls)), 'hall:' + key(), 'the best of each generation enters the hall of fame',
                      got=[x.gid for x in o.hallOfFame], want=halls)
        ctx.trans(len(w.evals))
        ctx.trace()
        ctx.state((base, tuple(w.evals), tuple(w.born)))
        ctx.sample(dict(config=base, evaluations=w.evals, born=w.born))

    explore(body)


def climb_job(ctx, kind, noisy, minimize, steps, menu):
    T = 1.5
    base = '%s:noisy=%s:min=%s' % (kind, noisy, minimize)

    def body(ch):
        memo, us = {}, []

        def answer(g):
            if noisy or g not in memo:
                memo[g] = menu[ch.pick(len(menu))]
            return memo[g]

        def unit():
            us.append((0.0, 0.3, 0.6, 0.99)[ch.pick(4)])
            return us[-1]
        cls = dict(hill=po.HillClimber, stochastic=po.StochasticHillClimber)[kind]
        kw = dict(minimize=minimize, evaluatorIsNoisy=noisy)
        if kind == 'stochastic':
            kw['temperature'] = T
        marks_u = []

        ok, r = ctx.guard('crash:' + base, lineage, cls, ch, answer, steps, 'all', unit, **kw)
        if not ok:
            raise StopJob()
        w, o, res, marks, _ = r
        key = base + ':%s' % ''.join(map(str, ch.taken))
        sgn = -1 if minimize else 1
        cands = set([w.evals[0][0]])          # individuals the search may be at (ties may go either way)
        value = {w.evals[0][0]: w.evals[0][1]}
        ui = 0
        for a, b in zip(marks, marks[1:]):
            seg = w.evals[a:b]
            if noisy:
                g, v = seg[0]
                if not ctx.check(g in cands and len(seg) == 2, 'again:' + key, 'the current point is evaluated again', got=seg, want=sorted(cands)):
                    raise StopJob()
                cands, value = set([g]), {g: v}
            g, v = seg[-1]
            how, par = w.born[g]
            if not ctx.check(how == 'mutated' and par in cands, 'descent:' + key, 'the challenger is a mutation of the accepted point', got=[g, how, par], want=sorted(cands), evals=w.evals, draws=us):
                raise StopJob()
            d = sgn * (v - value[par])
            if d > 0:
                cands, value = set([g]), {g: v}
            elif d == 0:
                cands, value = set([par, g]), {par: v, g: v}
            elif kind == 'hill':
                cands, value = set([par]), {par: value[par]}
            else:
                if not ctx.check(ui < len(us), 'coin:' + key, 'a worse point is accepted by chance', got=us):
                    raise StopJob()
                acc = us[ui] < math.exp(d / T)
                ui += 1
                x = g if acc else par
                cands, value = set([x]), {x: v if acc else value[par]}
        ctx.check(ui == len(us), 'coins:' + key, 'a draw decides only about worse points', got=us, want=ui)
        ctx.trans(len(w.evals))
        ctx.trace()
        ctx.state((base, tuple(w.evals), tuple(us)))
        ctx.sample(dict(config=base, evaluations=w.evals, born=w.born, draws=us))

    explore(body)


def random_job(ctx, name, steps):
    def body(ch):
        w, o, res, marks, _ = lineage(getattr(po, name), ch, lambda g: (0., 1., 2.)[ch.pick(3)], steps, 'all')
        ctx.check([w.born[g][0] for g, _ in w.evals] == ['start'] + ['random'] * steps and len(set(g for g, _ in w.evals)) == steps + 1,
                  'random:%s:%s' % (name, ch.taken), 'after the start each point is a new random one', got=w.evals, born=w.born)
        ctx.trans(len(w.evals))
        ctx.trace()
        ctx.state((name, tuple(w.evals)))

    explore(body)


# ---------------------------------------------------------------------------------------------- genetic algorithms
def ga_run(ch, f, dim, gens, x0, unit, gauss, perms, **kw):
    marks = []
    with rng.control(ch, unit=unit, gauss=gauss, perms=perms) as ctl:
        o = po.GA(f, array(x0, dtype=float), maxEvaluations=10000, **kw)
        marks.append((len(f.rec), len(ctl.log)))
        o.listener = lambda e, v: marks.append((len(f.rec), len(ctl.log)))
        f.stop = gens * o.populationSize
        try:
            o.learn(gens)
        except Enough:
            marks.append((len(f.rec), len(ctl.log)))      # what is bred after the last generation is never seen
    return o, marks, ctl.log


class Enough(BaseException):
    pass


class Rec(object):
    stop = None

    def __init__(self, answer):
        self.rec, self.answer, self.memo = [], answer, {}

    def __call__(self, x):
        p = tuple(float(v) for v in x)
        if p not in self.memo:
            self.memo[p] = self.answer(len(self.memo))
        self.rec.append((p, self.memo[p]))
        if len(self.rec) == self.stop:
            raise Enough()
        return self.memo[p]


def counter():
    n = [0]

    def nxt():
        n[0] += 1
        return float(n[0])
    return nxt


def ga_judge(ctx, key, gen, nxt, k, es, dim, mutations, size):
    """nxt must be: the es fittest of gen, and crossings of the k fittest with `mutations` genes changed"""
    fits = sorted((v for _, v in gen), reverse=True)
    ctx.check(len(nxt) == size, 'size:' + key, 'the population keeps its size', got=len(nxt), want=size)
    pts = [p for p, _ in nxt]
    if es:
        cut = fits[es - 1]
        sure = [p for p, v in gen if v > cut]
        tied = [p for p, v in gen if v == cut]
        left = list(pts)
        good = True
        for p in sure:
            if p in left:
                left.remove(p)
            else:
                good = False
        found = 0
        for p in tied:
            if p in left:
                left.remove(p)
                found += 1
        ctx.check(good and found >= es - len(sure), 'elite:' + key, 'the elite survives unchanged', got=pts, want=[sure, tied, es])
    cut = fits[k - 1]
    parents = [p for p, v in gen if v >= cut]
    if mutations == 0:
        for p in pts:
            ok = any(p[:j] == a[:j] and p[j:] == b[j:] for a in parents for b in parents for j in range(0, dim))
            if not ctx.check(ok, 'crossing:' + key, 'every child joins the front of one and the rest of another of the fittest', got=p, want=parents, last=gen):
                raise StopJob()
        # no more parents of the marginal fitness than there are places for
        used = set()
        for p in pts:
            for j in range(dim):
                used |= set([min(q for q in parents if q[j] == p[j])]) if len([q for q in parents if q[j] == p[j]]) == 1 else set()
        marginal = len([p for p, v in gen if v == cut and p in used])
        ctx.check(marginal <= k - len([1 for v in fits if v > cut]), 'parents:' + key, 'not more parents than selected', got=sorted(used), want=k, last=gen)


def ga_cross_job(ctx, size, dim, top, elitism, eliteprop, menu, gens, perms, free):
    base = 'GA:%d:dim=%d:top=%s:elite=%s' % (size, dim, top, eliteprop if elitism else None)
    k = int(size * top)
    es = min(int(size * eliteprop), k) if elitism else 0

    def body(ch):
        f = Rec(lambda n: menu[ch.pick(len(menu))])
        dch = ch if free else Chooser()
        ok, r = ctx.guard('crash:' + base, ga_run, dch, f, dim, gens, [0.25] * dim, lambda: 0.5, counter(), perms,
                          populationSize=size, topProportion=top, elitism=elitism, eliteProportion=eliteprop, mutationProb=0.)
        if not ok:
            raise StopJob()
        o, marks, log = r
        key = base + ':%s' % ''.join(map(str, ch.taken))
        m = [a for a, _ in marks]
        if not ctx.check(len(m) == gens + 1, 'generations:' + key, 'runs the generations asked for', got=len(m) - 1, want=gens):
            raise StopJob()
        seg = [f.rec[a:b] for a, b in zip(m, m[1:])]
        ctx.check(f.rec[0][0] == (0.25,) * dim and len(set(p for p, _ in seg[0])) == size == len(seg[0]), 'initial:' + key, 'the first generation has the start and random others', got=seg[0])
        for a, b in zip(seg, seg[1:]):
            ga_judge(ctx, key, a, b, k, es, dim, 0, size)
        ctx.trans(len(f.rec))
        ctx.trace()
        ctx.state((base, tuple(f.rec)))
        ctx.outcome(tuple(f.rec[-size:]))
        ctx.sample(dict(config=base, generations=seg))

    explore(body)


def ga_mutate_job(ctx, size, dim, bounds, elitism):
    """which genes change is decided by one coin each; changed genes are moved by the drawn amount, kept within bounds"""
    base = 'GA mutation:%d:dim=%d:%s:elite=%s' % (size, dim, bounds, elitism)
    k = size // 2
    es = 1 if elitism else 0

    def body(ch):
        pat = ch.pick(size)
        f = Rec(lambda n: float((n + pat) % size))
        phase = [0]
        start = rng.vdc(2, 3)
        coins = []

        def unit():
            if len(f.rec) == 0:
                return start()
            coins.append((0.0, 0.95)[ch.pick(2)])
            return coins[-1]
        g = counter()
        gs = []

        def gauss():
            gs.append(g() * 16. if len(f.rec) == 0 or bounds is None else (-1) ** len(gs) * g())
            return gs[-1]
        kw = {}
        if bounds is not None:
            kw['xBound'] = [bounds] * dim
        ok, r = ctx.guard('crash:' + base, ga_run, Chooser(), f, dim, 2, [0.25] * dim, unit, gauss, 'none', populationSize=size, topProportion=0.5,
                          elitism=elitism, eliteProportion=1. / size, mutationProb=0.5, mutationStdDev=0.5, **kw)
        if not ok:
            raise StopJob()
        o, marks, log = r
        key = base + ':%s' % ''.join(map(str, ch.taken))
        seg = [f.rec[:marks[1][0]], f.rec[marks[1][0]:marks[2][0]]]
        step = [l[1] * 0.5 for l in log[marks[0][1]:marks[1][1]] if l[0] == 'g']
        heads = [l for l in log[marks[0][1]:marks[1][1]] if l[0] == 'u' and l[1] < 0.5]
        fits = sorted((v for _, v in seg[0]), reverse=True)
        parents = [p for p, v in seg[0] if v >= fits[k - 1]]
        ga_judge(ctx, key, seg[0], seg[1], k, es, dim, None, size)
        ctx.check(len(step) == len(heads), 'coins:' + key, 'one amount drawn for each gene that mutates', got=len(step), want=len(heads))
        clip = (lambda v: v) if bounds is None else (lambda v: max(min(v, bounds[1]), bounds[0]))
        changed = 0
        kids = [p for p, _ in seg[1]][es:] if es else [p for p, _ in seg[1]]
        for p in kids:
            for j in range(dim):
                olds = [q[j] for q in parents]
                if p[j] in olds:
                    continue
                changed += 1
                ctx.check(any(abs(clip(q + s) - p[j]) < 1e-9 for q in olds for s in step), 'amount:' + key, 'a mutated gene moved by a drawn amount', got=p[j], want=[olds, step])
        ctx.check(changed == len(heads) if bounds is None else changed <= len(heads), 'mutated:' + key, 'as many genes mutate as coins say', got=changed, want=len(heads), gen=seg)
        if bounds is not None:
            out = [p for p, _ in f.rec if any(v < bounds[0] or v > bounds[1] for v in p)]
            ctx.check(not out, 'bounds:' + key, 'only points within the bounds are evaluated', got=out, want=bounds)
        ctx.trans(len(f.rec))
        ctx.trace()
        ctx.state((base, pat, tuple(coins)))
        ctx.outcome(tuple(p for p, _ in seg[1]))

    explore(body)


# ------------------------------------------------------------------------------------------------- particle swarms
def pso_job(ctx, size, dim, hood, steps, menu, u, bounds, minimize):
    base = 'PSO:%d:dim=%d:%s:u=%s:%s:min=%s' % (size, dim, hood, u, bounds, minimize)
    near = {'full': lambda i: range(size), 'ring': lambda i: ((i + 1) % size, (i - 1) % size), 'none': lambda i: (i,)}[hood]
    fun = {'full': None, 'ring': ring, 'none': lambda lst: dict((p, [p]) for p in lst)}[hood]
    M, S, I = 1.5, 0.75, 0.5
    sgn = -1 if minimize else 1

    def body(ch):
        f = Rec(lambda n: menu[ch.pick(len(menu))])
        start = rng.vdc(2, 1)
        unit = lambda: start() if not f.rec else u
        marks = []

        def go():
            with rng.control(Chooser(), unit=unit, gauss=rng.vdc_gauss()):
                kw = dict(size=size, memory=M, sociality=S, inertia=I, minimize=minimize, maxEvaluations=1000)
                if fun:
                    kw['neighbourfunction'] = fun
                if bounds:
                    kw['boundaries'] = [(lo, hi) for lo, hi in bounds][:dim]
                o = po.ParticleSwarmOptimizer(f, zeros(dim), **kw)
                o.listener = lambda e, v: marks.append(len(f.rec))
                return o.learn(steps)
        ok, r = ctx.guard('crash:' + base, go)
        if not ok:
            raise StopJob()
        key = base + ':%s' % ''.join(map(str, ch.taken))
        if not ctx.check(marks == [size * (i + 1) for i in range(steps)], 'swarm:' + key, 'every step evaluates each particle once', got=marks):
            raise StopJob()
        lim = ([(lo, hi) for lo, hi in bounds] if bounds else [(-10, 10)] * dim)[:dim]
        seg = [f.rec[i * size:(i + 1) * size] for i in range(steps)]
        ctx.check(all(lo <= p[j] <= hi for p, _ in seg[0] for j, (lo, hi) in enumerate(lim)) and len(set(p for p, _ in seg[0])) == size, 'start:' + key,
                  'particles start at different points within the boundaries', got=seg[0], want=lim)
        vel = [[0.] * dim for _ in range(size)]
        for t in range(steps - 1):
            for i in range(size):
                pos = seg[t][i][0]
                mine = [s[i] for s in seg[:t + 1]]
                top = max(sgn * v for _, v in mine)
                pbs = [p for p, v in mine if sgn * v == top]
                top = max(sgn * seg[t][j][1] for j in near(i))
                nbs = [seg[t][j][0] for j in near(i) if sgn * seg[t][j][1] == top]
                got = seg[t + 1][i][0]
                new = None
                for pb in pbs:
                    for nb in nbs:
                        v = [I * vel[i][d] + S * u * (nb[d] - pos[d]) + M * u * (pb[d] - pos[d]) for d in range(dim)]
                        if all(abs(pos[d] + v[d] - got[d]) < 1e-9 for d in range(dim)):
                            new = v
                if not ctx.check(new is not None, 'move:' + key, 'particle %d moves by inertia, towards its best point and towards its best neighbour' % i,
                                 got=got, start=pos, own=pbs, neighbour=nbs, velocity=vel[i], step=t):
                    raise StopJob()
                vel[i] = [got[d] - pos[d] for d in range(dim)]
        ctx.trans(len(f.rec))
        ctx.trace()
        ctx.state((base, tuple(v for _, v in f.rec)))
        ctx.outcome(tuple(f.rec[-size:]))
        ctx.sample(dict(config=base, steps=seg))

    explore(body)


# ------------------------------------------------------------------------------------------------------- rankings
def vectors(menu, n):
    if n == 0:
        yield ()
        return
    for v in vectors(menu, n - 1):
        for a in menu:
            yield v + (a,)


def rank_job(ctx, n, menu):
    fns = [('rankedFitness', rf.rankedFitness, (0, n - 1)), ('default', rf.RankingFunction(), (0, 1)), ('gini', rf.SmoothGiniRanking(), (0, 1)),
           ('gini linear', rf.SmoothGiniRanking(linearComponent=0.3, gini=0.5), (0, 1)), ('exponential', rf.ExponentialRanking(temperature=2.), (1, math.exp(2.) + 1e-9)),
           ('hansen', rf.HansenRanking(), (0, math.log(n / 2. + 1) + 1e-9)), ('bilinear', rf.BilinearRanking(), (0, 1)),
           ('top half', rf.TopSelection(topFraction=0.5), (0, 1)), ('top linear', rf.TopLinearRanking(topFraction=max(0.5, 2. / n)), (0, 1))]
    for R in vectors(menu, n):
        for kind in ('list', 'float', 'tuple'):
            arg = {'list': lambda: [float(v) for v in R], 'float': lambda: array(R, dtype=float), 'tuple': lambda: tuple(float(v) for v in R)}[kind]
            for name, fn, (lo, hi) in fns:
                key = '%s:%s:%s' % (name, kind, R)
                a = arg()
                ok, res = ctx.guard('crash:' + key, fn, a)
                if not ok:
                    continue
                r = [float(v) for v in res]
                ctx.check(list(a) == list(arg()), 'argument:' + key, 'the fitnesses are left as they were', got=list(a), want=R)
                ctx.check(len(r) == n and all(lo - 1e-12 <= v <= hi + 1e-12 for v in r), 'range:' + key, 'rank values in range', got=r, want=[lo, hi])
                ctx.check(all(r[i] <= r[j] + 1e-12 for i in range(n) for j in range(n) if R[i] < R[j]), 'order:' + key, 'a fitter sample never ranks lower', got=r)
                if name not in ('hansen', 'top half', 'top linear'):
                    ctx.check(all(r[i] < r[j] for i in range(n) for j in range(n) if R[i] < R[j]), 'strict:' + key, 'a fitter sample ranks higher', got=r)
                if name == 'rankedFitness':
                    ctx.check(sorted(r) == list(range(n)), 'ranks:' + key, 'ranks are 0..n-1', got=r)
                if name in ('default', 'gini', 'gini linear', 'bilinear', 'top linear'):
                    ctx.check(max(r) == 1, 'scale:' + key, 'the best rank is scaled to one', got=r)
                if name == 'top half':
                    ctx.check(sum(r) in (n // 2, (n + 1) // 2) and set(r) <= set([0., 1.]), 'selected:' + key, 'selects half of them', got=r)
                if name == 'top linear':
                    chosen = sorted(v for v in r if v > 0)
                    m = len(chosen)
                    gaps = [b - a for a, b in zip(chosen, chosen[1:])]
                    ctx.check(all(abs(g - gaps[0]) < 1e-9 for g in gaps), 'linear:' + key, 'weights of the selected grow linearly', got=r)
                # the multiset of values does not depend on the fitness values
                ctx.check(sorted(r) == sorted(float(v) for v in fn(list(range(n)) if name == 'x' else [float(i) for i in range(n)])), 'multiset:' + key, 'values depend on ranks only', got=sorted(r))
                ctx.trans()
        ctx.trace()
        ctx.state(R)
        if len(set(R)) > 1:
            norm = rf.normalizedFitness(array(R, dtype=float))
            ctx.check(abs(sum(norm)) < 1e-9 and abs(sum(v * v for v in norm) - n) < 1e-9 and
                      all((norm[i] < norm[j]) == (R[i] < R[j]) for i in range(n) for j in range(n)), 'normalized:%s' % (R,), 'zero mean, unit variance, same order', got=[float(v) for v in norm])


def tournament_job(ctx, n, size, menu):
    for R in vectors(menu, n):
        def body(ch):
            with rng.control(ch):
                try:
                    res = [int(v) for v in rf.TournamentSelection(tournamentSize=size)(list(R))]
                except Exception as e:
                    ctx.check(False, 'crash:%s:%d' % (R, size), 'tournament runs', error=repr(e))
                    raise StopJob()
            key = 'tournament:%s:%d:%s' % (R, size, ''.join(map(str, ch.taken)))
            ctx.check(sum(res) == n and min(res) >= 0, key, 'one winner for each tournament', got=res, want=n)
            for i in range(n):
                if all(R[j] < R[i] for j in range(n) if j != i):
                    ctx.check(res[i] >= 1, 'best:' + key, 'the fittest wins its own tournament', got=res)
                if all(R[j] > R[i] for j in range(n) if j != i):
                    ctx.check(res[i] == 0, 'worst:' + key, 'the least fit wins none', got=res)
            ctx.trans(n)
            ctx.trace()
            ctx.state((R, size, tuple(ch.taken)))
        # a draw of the sample itself is repeated: bound the number of repetitions
        explore(lambda ch: body(ch), bound=None) if False else limited(body, n)


def limited(body, n):
    """redraws (the index of the sample itself) make the tree infinite: cut runs with more than 3 draws per opponent"""
    from mc.choice import Horizon

    def cut(ch):
        ch.horizon = 3 * n
        body(ch)
    explore(cut, horizon=3 * n)


def jobs(tier, seed):
    T = tier != 'quick'
    M2, M3 = (0., 1.), (0., 1., 2.)
    out = []
    for mu, lam, el, noisy, steps, menu, perms in [
            (1, 2, False, False, 3, M3, 'all'), (1, 3, False, False, 2, M2, 'rot'), (2, 2, False, False, 3, M2, 'all'), (2, 4, False, False, 1, M2, 'rot'),
            (2, 4, False, False, 2, M2, 'none'), (1, 1, True, False, 4, M3, 'all'), (1, 2, True, False, 2, M2, 'all'), (2, 2, True, False, 2, M2, 'none'),
            (2, 2, True, False, 1, M3, 'rot'), (1, 1, False, False, 4, M3, 'all'), (1, 2, False, True, 2, M2, 'all'), (2, 2, False, True, 2, M2, 'none'),
            (1, 1, True, True, 2, M3, 'none'), (2, 2, True, True, 1, M2, 'rot'), (3, 3, True, False, 1, M2, 'none'), (1, 3, True, False, 2, M2, 'none')]:
        out.append(('ES:%d%s%d:noisy=%s:%d:%s' % (mu, '+' if el else ',', lam, noisy, steps, perms), es_job, (mu, lam, el, noisy, steps, menu, perms)))
    if T:
        for a in [(1, 2, False, False, 4, M3, 'none'), (2, 4, False, False, 2, M3, 'none'), (2, 2, True, False, 2, M3, 'rot'), (3, 3, False, False, 2, M3, 'none'), (2, 4, True, False, 1, M3, 'none')]:
            out.append(('deep ES:%s' % (a,), es_job, a))
    for minimize in (False, True):
        for noisy in (False, True):
            out.append(('hill:noisy=%s:min=%s' % (noisy, minimize), climb_job, ('hill', noisy, minimize, 3 if noisy else 6 + T, M3)))
        out.append(('stochastic:min=%s' % minimize, climb_job, ('stochastic', False, minimize, 4 + T, M3)))
        out.append(('stochastic:noisy:min=%s' % minimize, climb_job, ('stochastic', True, minimize, 2, M3)))
    for name in ('RandomSearch', 'WeightGuessing'):
        out.append(('random:' + name, random_job, (name, 5)))
    for size, dim, top, el, ep, menu, gens, perms, free in [
            (4, 3, 0.5, False, 0.5, M2, 2, 'all', True), (4, 1, 0.5, True, 0.25, M2, 2, 'all', True), (4, 3, 0.5, True, 0.25, M2, 2, 'all', True), (4, 2, 0.75, True, 0.5, M3, 2, 'none', False),
            (3, 2, 0.7, True, 0.4, M3, 3, 'none', False), (4, 2, 0.5, False, 0.5, M2, 3, 'none', False), (4, 2, 1.0, False, 0.5, M3, 2, 'none', False), (4, 2, 0.5, True, 0.5, M3, 2, 'none', False),
            (5, 2, 0.4, True, 0.2, M3, 2, 'none', False), (3, 2, 0.34, False, 0.5, M3, 2, 'none', False), (3, 1, 0.34, True, 0.34, M3, 2, 'none', False), (5, 3, 0.6, True, 0.4, M3, 1 + T, 'none', False), (4, 2, 0.5, True, 1.0, M3, 2, 'none', False)]:
        out.append(('GA crossing:%d:dim=%d:%s:%s:%d:%s' % (size, dim, top, ep if el else None, gens, free), ga_cross_job, (size, dim, top, el, ep, menu, gens, perms, free)))
    for size, dim in ((4, 1), (4, 2), (2, 3)):
        for bounds in (None, (-1.0, 3.0), (0.0, 0.5)):
            for el in (False, True):
                if size == 4 and dim == 2 and not T and el == (bounds is None):
                    continue
                out.append(('GA mutation:%d:dim=%d:%s:%s' % (size, dim, bounds, el), ga_mutate_job, (size, dim, bounds, el)))
    for size, dim, hood, steps, menu in [(2, 1, 'full', 3, M3), (3, 1, 'full', 3, M2), (3, 2, 'ring', 3, M2), (2, 2, 'ring', 3, M3), (2, 2, 'none', 3, M3), (4, 1, 'ring', 2, M2), (1, 2, 'full', 5, M3), (3, 2, 'full', 2, M3)]:
        for u in (0.5, 1.0):
            out.append(('PSO:%d:%d:%s:%s' % (size, dim, hood, u), pso_job, (size, dim, hood, steps, menu, u, ((-1, 3), (5, 6)) if u == 1.0 else None, u == 0.5)))
    for n, menu in ((2, M3), (3, M3), (4, M3), (5, M3 if T else M2), (6, M2)):
        out.append(('ranks:%d' % n, rank_job, (n, menu)))
    for n, size in ((2, 2), (3, 2), (3, 3), (4, 2)):
        if n < 4 or T:
            out.append(('tournament:%d:%d' % (n, size), tournament_job, (n, size, M3 if n < 4 else M2)))
    return out
