"""Every multiset of objective vectors over small grids, in every (or many) input orders, through every front algorithm
and both equality modes; sorting, crowding and selection on all of them; systematic families of more than 20 and 100
vectors; multi-objective GA runs under every sequence of answers over an alphabet of (feasible and infeasible) vectors."""

import itertools
from numpy import array
from mc.choice import explore, Chooser
from mc.core import StopJob
from mc import rng, optlib
from pybrain.tools import nondominated as nd
from pybrain.optimization import MultiObjectiveGA, ConstMultiObjectiveGA
from pybrain.optimization.populationbased.multiobjective import nsga2, constnsga2
from pybrain.rl.environments.functions.multiobjective import MultiObjectiveFunction
from pybrain.structure.parametercontainer import ParameterContainer

ASSUMPTIONS = ['smaller objective values dominate (the convention of the fronts)', 'allowequality: only vectors better in every objective dominate',
               'without allowequality: no worse everywhere and better somewhere dominates, and of equal vectors one is kept',
               'where sorting an objective has ties, which of the tied neighbours counts for crowding is open',
               'which of the equally infeasible individuals is kept is open']
FRONTS = ['_non_dominated_front_old', '_non_dominated_front_fast', '_non_dominated_front_merge', '_non_dominated_front_arr', 'non_dominated_front']
INF = 1e99


def strictly(a, b):
    return all(x < y for x, y in zip(a, b))


def pareto(a, b):
    return all(x <= y for x, y in zip(a, b)) and a != b


def want_front(vecs, eq):
    """indices not dominated"""
    dom = strictly if eq else pareto
    return [i for i, v in enumerate(vecs) if not any(dom(w, v) for w in vecs)]


def right(vecs, got, eq):
    """got: list of indices"""
    want = want_front(vecs, eq)
    if eq:
        return sorted(got) == want
    return set(got) <= set(want) and len(set(got)) == len(got) and sorted(vecs[i] for i in got) == sorted(set(vecs[i] for i in want))


def kinds(v, kind):
    return {'tuple': tuple(v), 'list': [float(x) for x in v], 'array': array(v, dtype=float), 'ints': array(v)}[kind]


def front_job(ctx, grid, n, perms):
    for vecs in itertools.combinations_with_replacement(grid, n):
        ctx.state(vecs)
        if perms == 'all':
            orders = set(itertools.permutations(vecs))
        else:
            orders = set([vecs, vecs[::-1], vecs[1:] + vecs[:1], vecs[n // 2:] + vecs[:n // 2]])
        for order in sorted(orders):
            for eq in (True, False):
                for m, name in enumerate(FRONTS):
                    kind = ('tuple', 'list', 'array', 'ints')[(m + eq + len(set(order))) % 4]
                    items = list(range(n))
                    key = lambda i: kinds(order[i], kind)
                    k = '%s:%s:%s:%s' % (name, eq, kind, order)
                    ok, got = ctx.guard('crash:' + k, getattr(nd, name), items, key, eq)
                    if ok:
                        ctx.check(right(order, list(got), eq), k, 'front is the set of vectors that no other dominates', got=sorted(got), want=want_front(order, eq))
                    ctx.trans()
                ok, layers = ctx.guard('crash:sort:%s:%s' % (eq, order), nd.non_dominated_sort, list(range(n)), lambda i: order[i], eq)
                if ok:
                    left = list(range(n))
                    good = True
                    for f in layers:
                        f = sorted(f)
                        good = good and bool(f) and set(f) <= set(left) and right([order[i] for i in left], [left.index(i) for i in f if i in left], eq)
                        left = [i for i in left if i not in f]
                    ctx.check(good and not left, 'sort:%s:%s' % (eq, order), 'sorting peels front after front', got=[sorted(f) for f in layers])
                ctx.trans()
            ctx.trace()
        # items that are their own keys
        vs = sorted(set(vecs))
        ok, got = ctx.guard('crash:plain:%s' % (vecs,), nd.non_dominated_front, vs)
        if ok:
            ctx.check(sorted(got) == [vs[i] for i in want_front(vs, True)], 'plain:%s' % (vecs,), 'front of plain tuples', got=sorted(got))


def cfront_job(ctx, menu, n, perms):
    """feasible individuals come first; among infeasible ones the least violation"""
    for vecs in itertools.combinations_with_replacement(range(len(menu)), n):
        ctx.state(vecs)
        orders = set(itertools.permutations(vecs)) if perms else set([vecs, vecs[::-1]])
        for order in sorted(orders):
            its = [menu[i] for i in order]
            for eq in (True, False):
                key = lambda i: [array(its[i][0], dtype=float), its[i][1], array(its[i][2])]
                k = 'constrained:%s:%s' % (eq, order)
                ok, layers = ctx.guard('crash:' + k, nd.const_non_dominated_sort, list(range(n)), key, eq)
                ok2, front = ctx.guard('crash front:' + k, nd.const_non_dominated_front, list(range(n)), key, eq)
                if ok and ok2:
                    left = list(range(n))
                    good = True
                    for j, f in enumerate(layers):
                        f = sorted(f)
                        if j == 0:
                            good = good and cright(its, left, sorted(front), eq)
                        good = good and bool(f) and cright(its, left, f, eq)
                        left = [i for i in left if i not in f]
                    ctx.check(good and not left, k, 'constrained sorting peels front after front', got=[sorted(f) for f in layers], items=its)
                ctx.trans()
            feas = nd.const_number_of_feasible_pop(list(range(n)), key)
            ctx.check(feas == len([1 for i in its if i[1]]), 'feasible:%s' % (order,), 'counts feasible individuals', got=feas)
            ctx.trace()


def cright(its, left, f, eq):
    feas = [i for i in left if its[i][1]]
    if not set(f) <= set(left):
        return False
    if feas:
        return set(f) <= set(feas) and right([its[i][0] for i in feas], [feas.index(i) for i in f], eq)
    least = min(abs(sum(its[i][2])) for i in left)
    return len(f) == 1 and abs(sum(its[f[0]][2])) == least


def crowd_exact(vecs):
    """the distances, or None where they depend on the order of ties"""
    n, dim = len(vecs), len(vecs[0])
    d = [0.] * n
    for k in range(dim):
        vals = sorted(v[k] for v in vecs)
        if len(set(vals)) < n:
            if len(set(vals)) > 1:
                return None
            return None
        for i in range(n):
            p = vals.index(vecs[i][k])
            if p in (0, n - 1):
                d[i] = float('inf')
            else:
                d[i] += (vals[p + 1] - vals[p - 1]) / float(vals[-1] - vals[0])
    return d


def crowd_job(ctx, grid, n, kind, constrained, repeat=True):
    for vecs in (itertools.combinations_with_replacement if repeat else itertools.combinations)(grid, n):
        for order in sorted(set([vecs, vecs[::-1], vecs[n // 2:] + vecs[:n // 2]])):
            if constrained:
                fits = dict((i, [kinds(v, kind), True, 0]) for i, v in enumerate(order))
                fn, sel = nd.const_crowding_distance, constnsga2.nsga2select
            else:
                fits = dict((i, kinds(v, kind)) for i, v in enumerate(order))
                fn, sel = nd.crowding_distance, nsga2.nsga2select
            k = 'crowding:%s:%s:%s' % (constrained, kind, order)
            ok, d = ctx.guard('crash:' + k, fn, list(range(n)), fits)
            if not ok:
                continue
            d = [float(d[i]) for i in range(n)]
            ctx.check(all(x >= 0 for x in d), 'sign:' + k, 'distances are numbers, not negative', got=d)
            for o in range(len(order[0])):
                vals = [v[o] for v in order]
                for ext in (min(vals), max(vals)):
                    ctx.check(any(d[i] > INF for i in range(n) if vals[i] == ext), 'extreme:' + k, 'an extreme individual of each objective is always wanted', got=d)
            outer = [i for i in range(n) if any(order[i][o] in (min(v[o] for v in order), max(v[o] for v in order)) for o in range(len(order[0])))]
            ctx.check(all(d[i] < INF for i in range(n) if i not in outer), 'inner:' + k, 'inner individuals have finite distances', got=d)
            want = crowd_exact(order)
            if want is not None:
                ctx.check(all((a > INF) == (b > INF) and (a > INF or abs(a - b) < 1e-9) for a, b in zip(d, want)), 'distance:' + k, 'distances to the neighbours in each objective', got=d, want=want)
            for eq in (True, False):
                layers, left = [], list(range(n))
                dom = strictly if eq else pareto
                for surv in range(1, n + 1):
                    ks = 'select:%s:%s:%d:%s' % (constrained, eq, surv, order)
                    ok, got = ctx.guard('crash:' + ks, sel, list(range(n)), fits, surv, eq)
                    if not ok:
                        continue
                    ctx.check(len(got) == surv == len(set(got)) and set(got) <= set(range(n)), 'size:' + ks, 'as many different individuals as asked for survive', got=got)
                    rest = [i for i in range(n) if i not in got]
                    if eq or len(set(order)) == n:
                        ranks = rank(order, dom)
                        ctx.check(all(ranks[i] <= ranks[j] for i in got for j in rest), 'rank:' + ks, 'earlier fronts survive first', got=got, want=ranks)
                        ctx.check([ranks[i] for i in got] == sorted(ranks[i] for i in got), 'order:' + ks, 'the foremost fronts come first', got=got, want=ranks)
                        last = max(ranks[i] for i in got)
                        front = [i for i in range(n) if ranks[i] == last]
                        cd = crowd_exact([order[i] for i in front]) if len(front) > 1 else None
                        if cd is not None:
                            m = dict(zip(front, cd))
                            ctx.check(all(m[i] >= m[j] - 1e-9 for i in got if i in m for j in rest if j in m), 'crowded:' + ks, 'of the last front the least crowded survive', got=got, want=m)
                    if not eq:
                        ctx.check(not any(dom(order[j], order[i]) and j in rest for i in got for j in rest), 'dominated:' + ks, 'nobody survives who is dominated by one who does not', got=got, vecs=order)
                    ctx.trans()
            ctx.trace()
        ctx.state((vecs, constrained, kind))


def rank(vecs, dom=strictly):
    """front numbers by a dominance"""
    ranks, left, r = {}, list(range(len(vecs))), 0
    while left:
        f = [i for i in left if not any(dom(vecs[j], vecs[i]) for j in left)]
        for i in f:
            ranks[i] = r
        left = [i for i in left if i not in f]
        r += 1
    return ranks


def big_job(ctx, total):
    """a front of f vectors on the anti-diagonal, the others behind it in layers, every f, in several orders"""
    for f in range(1, total + 1, max(1, total // 25)):
        vecs = [(i, f - i) for i in range(f)]
        layer = 1
        while len(vecs) < total:
            m = min(f, total - len(vecs))
            vecs += [(i + 100 * layer, f - i + 100 * layer) for i in range(m)]
            layer += 1
        for how in ('front first', 'front last', 'shuffled', 'layered'):
            if how == 'front last':
                idx = list(range(total))[::-1]
            elif how == 'shuffled':
                idx = sorted(range(total), key=lambda i: (i * 37) % total + i * 1e-6)
            elif how == 'layered':
                idx = sorted(range(total), key=lambda i: (i % 3, i))
            else:
                idx = list(range(total))
            order = [vecs[i] for i in idx]
            for eq in (True, False):
                want = sorted(i for i in range(total) if order[i] in set(vecs[:f]))
                for name in ('_non_dominated_front_merge', '_non_dominated_front_arr', 'non_dominated_front'):
                    k = 'big:%s:%s:%d:%d:%s' % (name, eq, total, f, how)
                    ok, got = ctx.guard('crash:' + k, getattr(nd, name), list(range(total)), lambda i: order[i], eq)
                    if ok:
                        ctx.check(sorted(got) == want, k, 'front of many vectors', got=sorted(got), want=want)
                    ctx.trans()
                ok, got = ctx.guard('crash:big constrained:%d:%d:%s' % (total, f, how), nd.const_non_dominated_front, list(range(total)),
                                    lambda i: [order[i], i % 5 != 0, [float(i % 7 + 1)]], eq)
                if ok:
                    feas = [i for i in range(total) if i % 5]
                    ctx.check(cright([(order[i], bool(i % 5), (0,)) for i in range(total)], list(range(total)), sorted(got), eq), 'big constrained:%s:%d:%d:%s' % (eq, total, f, how),
                              'front of many feasible vectors', got=sorted(got))
            ctx.trace()
        ctx.state((total, f))


class Problem(MultiObjectiveFunction):
    toBeMinimized = False
    desiredValue = None


def ga_job(ctx, name, size, dim, elite, eliteprop, eq, menu, gens, startkind, dup):
    constrained = name == 'const'
    base = 'GA:%s:%d:%s:%s:eq=%s:%s:dup=%d' % (name, size, elite, eliteprop, eq, startkind, dup)
    es = min(int(size * eliteprop), size // 2) if elite else 0

    def body(ch):
        memo, order, pops = {}, [], []
        prob = Problem(dim)
        prob.constrained = constrained

        def f(x):
            p = tuple(float(v) for v in x)
            if p not in memo:
                memo[p] = menu[ch.pick(len(menu))]
                order.append(p)
            if constrained:
                prob.feasible, prob.violation = memo[p][1], array(memo[p][2], dtype=float)
            return array(memo[p][0] if constrained else memo[p], dtype=float)
        prob.f = f
        x0 = array([0.5] * dim)
        if startkind == 'container':
            pc = ParameterContainer(dim)
            pc._setParameters(x0)
            x0 = pc
        pop0 = [array([float(i // (1 + dup)) / 4 + d for d in range(dim)]) for i in range(size)]
        bests = []

        def go():
            with rng.control(Chooser(), unit=rng.vdc(2, 3), gauss=rng.vdc_gauss(), perms='none'):
                o = (ConstMultiObjectiveGA if constrained else MultiObjectiveGA)(
                    prob, x0, populationSize=size, elitism=elite, eliteProportion=eliteprop, topProportion=0.5, allowEquality=eq,
                    mutationProb=0.9, storeAllPopulations=True, initialPopulation=pop0, maxEvaluations=1000)
                o.listener = lambda e, v: bests.append((list(e), list(v)))
                return o, o.learn(gens)
        ok, r = ctx.guard('crash:' + base, go)
        if not ok:
            raise StopJob()
        o, (x, v) = r
        key = base + ':%s' % ''.join(map(str, ch.taken))
        gen = [[tuple(float(c) for c in p) for p in g[0]] for g in o._allGenerations]
        if not ctx.check(len(gen) == gens == len(bests), 'generations:' + key, 'runs all generations', got=len(gen), want=gens):
            raise StopJob()
        seen = []
        for t, pop in enumerate(gen):
            ctx.check(len(pop) == size, 'size:' + key, 'the population keeps its size', got=len(pop), want=size, generation=t)
            for p in pop:
                if p not in seen:
                    seen.append(p)
            cand = sorted(set(pop)) if elite else seen
            got = [tuple(float(c) for c in p) for p in bests[t][0]]
            its = [memo[p] for p in cand]
            good = ctx.check(set(got) <= set(cand) and front_ok(its, [cand.index(p) for p in got if p in cand], eq, constrained), 'front:' + key,
                             'the best are the front of the population' if elite else 'the best are the front of all evaluated', got=got, want=[(p, memo[p]) for p in cand], generation=t)
            vals = [list(map(float, w[0])) + [bool(w[1])] if constrained else list(map(float, w)) for w in bests[t][1]]
            want = [list(map(float, memo[p][0])) + [memo[p][1]] if constrained else list(map(float, memo[p])) for p in got]
            ctx.check(vals == want, 'values:' + key, 'the reported values belong to the reported points', got=vals, want=want)
            if not good:
                raise StopJob()
            if t and es:
                old = sorted(set(gen[t - 1]))
                kept = [p for p in old if p in pop]
                if eq and not constrained:
                    rk = dict(zip(old, [rank([memo[p] for p in old])[i] for i in range(len(old))]))
                    need = sorted(rk[p] for p in old)[:es]
                    ctx.check(sorted(rk[p] for p in kept)[:es] == need, 'elites:' + key, 'the foremost individuals stay', got=kept, want=rk)
                elif constrained:
                    feas = [p for p in old if memo[p][1]]
                    if feas:
                        ctx.check(any(memo[p][1] for p in kept), 'feasible elite:' + key, 'a feasible individual stays', got=kept, want=feas)
                else:
                    fr = [p for p in old if not any(pareto(memo[q], memo[p]) for q in old)]
                    ctx.check(any(p in fr for p in kept), 'elites:' + key, 'a non-dominated individual stays', got=kept, want=fr)
        if startkind == 'container':
            ctx.check(isinstance(x, list) and all(isinstance(p, ParameterContainer) for p in x) and [tuple(float(c) for c in p.params) for p in x] == got, 'containers:' + key, 'the front comes as containers', got=x)
        else:
            ctx.check([tuple(float(c) for c in p) for p in x] == got, 'result:' + key, 'the front is returned', got=x, want=got)
        ctx.trans(len(order))
        ctx.trace()
        ctx.state((base, tuple(memo[p] for p in order)))
        ctx.outcome((tuple(got), len(order)))
        ctx.sample(dict(config=base, generations=gen, values=[memo[p] for p in order], front=got))

    explore(body)


def front_ok(its, got, eq, constrained):
    if constrained:
        return cright(its, list(range(len(its))), sorted(got), eq)
    return right(its, sorted(got), eq)


def jobs(tier, seed):
    T = tier != 'quick'
    g3 = [(a, b) for a in range(3) for b in range(3)]
    g2 = [(a, b, c) for a in range(2) for b in range(2) for c in range(2)]
    g1 = [(0,), (1,), (2,)]
    out = []
    for n in range(1, 6 + T):
        out.append(('fronts:3x3:%d' % n, front_job, (g3, n, 'all' if n < 4 + T else 'some')))
    for n in range(1, 5 + T):
        out.append(('fronts:2x2x2:%d' % n, front_job, (g2, n, 'all' if n < 4 + T else 'some')))
    out.append(('fronts:line', front_job, (g1, 4, 'all')))
    cm = [((0, 1), True, (0.,)), ((1, 0), True, (0.,)), ((1, 1), True, (0.,)), ((2, 2), True, (0.,)), ((0, 0), False, (1.,)), ((1, 1), False, (2., 0.5)), ((0, 1), False, (-1.,))]
    for n in range(1, 5 + T):
        out.append(('constrained:%d' % n, cfront_job, (cm, n, n < 5)))
    for constrained in (False, True):
        for n in range(1, 5 + T):
            out.append(('crowding:%s:%d' % (constrained, n), crowd_job, (g3, n, 'tuple' if n % 2 else 'array', constrained)))
        out.append(('crowding:distinct:%s' % constrained, crowd_job, ([(0, 3), (1, 7), (2, 1), (4, 0), (7, 2), (8, 8), (9, -1)], 4, 'tuple', constrained)))
        behind = [(3, 9), (4, 7), (5, 4), (6, 5), (8, 3), (2, 2), (7, 0), (1, 6)]
        for n in (5, 6) + (7,) * T:
            out.append(('crowding:behind:%d:%s' % (n, constrained), crowd_job, (behind, n, 'tuple', constrained, False)))
        out.append(('crowding:5:%s' % constrained, crowd_job, ([(0, 9), (1, 7), (2, 5), (4, 4), (7, 2), (8, 0)], 5, 'list', constrained)))
        out.append(('crowding:3d:%s' % constrained, crowd_job, (g2, 3 + T, 'array', constrained)))
    for total in (21, 60, 101, 130) + ((250,) if T else ()):
        out.append(('big:%d' % total, big_job, (total,)))
    m = [(0., 1.), (1., 0.), (1., 1.), (0., 0.)]
    mc = [((0., 1.), True, (0.,)), ((1., 0.), True, (0.,)), ((0., 0.), False, (1.,)), ((1., 1.), False, (3.,))]
    for name, menu in (('plain', m), ('const', mc)):
        for elite, ep in ((True, 0.5), (True, 0.25), (False, 0.5)):
            for eq in (True, False):
                out.append(('GA:%s:%s:%s:eq=%s' % (name, elite, ep, eq), ga_job, (name, 4, 2, elite, ep, eq, menu if T or (elite and ep == 0.5) else menu[1:], 2, 'vec', 0)))
            out.append(('GA:dup:%s:%s:%s' % (name, elite, ep), ga_job, (name, 4, 2, elite, ep, True, menu[:3], 2, 'vec', 1)))
            out.append(('GA:same:%s:%s:%s' % (name, elite, ep), ga_job, (name, 4, 2, elite, ep, True, menu[:2], 2, 'vec', 3)))
        out.append(('GA:container:%s' % name, ga_job, (name, 4, 2, True, 0.5, True, menu[:2], 2, 'container', 0)))
        out.append(('GA:three:%s' % name, ga_job, (name, 4, 1, True, 0.5, False, menu[:2], 3, 'vec', 0)))
    return out
