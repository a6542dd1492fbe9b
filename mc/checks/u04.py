"""Every weak order of up to 4 (5) fitness values as list, float and integer array, under several order-preserving changes and
every permutation, through every ranking function and setting; tournaments under every draw of opponents; truncation for every
number of samples and fraction."""

import itertools
import math
from fractions import Fraction
import numpy
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.tools import rankingfunctions as rf

ASSUMPTIONS = ['at least two individuals', 'which of equally fit individuals gets the higher rank is open',
               'truncation keeps floor(fraction * number) individuals', 'TopLinearRanking scales the selected ones from 0, so at least two have to be selected',
               'equivariance is judged for distinct fitnesses; with ties, the multiset of weights per level is judged']


def levels(n):
    """all weak orders: level per individual, levels used without gaps"""
    for v in itertools.product(range(n), repeat=n):
        if set(v) == set(range(max(v) + 1)):
            yield v


MAPS = [lambda k: float(k), lambda k: -7.5 + k ** 3 * .01, lambda k: math.exp(3. * k) * 1e-3, lambda k: 1e6 + k, lambda k: -1. / (k + 1)]


def settings(n):
    yield 'RankingFunction', rf.RankingFunction, {}
    for gini in (.1, .3, .5, 1.):
        for lin in (0., .3, 1.):
            yield 'SmoothGiniRanking', rf.SmoothGiniRanking, dict(gini=gini, linearComponent=lin)
    for t in (10., 1., .1):
        yield 'ExponentialRanking', rf.ExponentialRanking, dict(temperature=t)
    yield 'HansenRanking', rf.HansenRanking, {}
    for k in range(1, n + 1):
        yield 'TopSelection', rf.TopSelection, dict(topFraction=k / float(n))
        if k > 1:
            yield 'TopLinearRanking', rf.TopLinearRanking, dict(topFraction=k / float(n))
    for b in (20, 0, 1.5):
        yield 'BilinearRanking', rf.BilinearRanking, dict(bilinearFactor=b)


def expected(name, kw, n, rank):
    """weight of the individual of this rank (0 = worst), before scaling; None: not prescribed"""
    if name == 'RankingFunction':
        return rank / (n - 1.)
    if name == 'SmoothGiniRanking':
        top = (n - 1) * kw['linearComponent'] + 1 - kw['linearComponent']
        return (rank * kw['linearComponent'] + (rank / (n - 1.)) ** (2 / kw['gini'] - 1) * (1 - kw['linearComponent'])) / top
    if name == 'ExponentialRanking':
        return math.exp(kw['temperature'] * rank / (n - 1.))
    if name == 'HansenRanking':
        return max(0., math.log(n / 2. + 1) - math.log(n - rank))
    k = int(round(kw.get('topFraction', 0) * n))
    if name == 'TopSelection':
        return float(rank >= n - k)
    if name == 'TopLinearRanking':
        return max(0., (rank - (n - k)) / (k - 1.))
    tp = 4 * n / 5.

    def raw(r):
        return r if r < tp else r + (r - tp) * kw['bilinearFactor']
    return raw(rank) / float(raw(n - 1))


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1., abs(x), abs(y)) for x, y in zip(a, b))


def shaping(ctx, n, perms):
    confs = [(name, kw, cls(**kw)) for name, cls, kw in settings(n)]
    for lv in levels(n):
        ctx.state(lv)
        distinct = len(set(lv)) == n
        base = {}
        for m, f in enumerate(MAPS):
            vals = [f(k) for k in lv]
            forms = [vals, array(vals)] + ([array(lv), list(lv)] if m == 0 else [])
            for form in forms:
                before = list(form)
                ok, ranks = ctx.guard('rank-crash', rf.rankedFitness, form)
                ctx.trans()
                if ok:
                    ctx.check(sorted(ranks) == list(range(n)) and all(lv[i] >= lv[j] or ranks[i] < ranks[j] for i in range(n) for j in range(n)),
                              'rank', 'not a linear ranking', vals=vals, got=list(ranks))
                for name, kw, r in confs:
                    ctx.trans()
                    ok, w = ctx.guard('shape-crash', r, form)
                    if not ok:
                        continue
                    w = [float(x) for x in w]
                    what = dict(function=name, settings=kw, vals=before)
                    ctx.check(len(w) == n and all(x == x and abs(x) < 1e300 for x in w), 'finite', 'not one finite weight per individual', got=w, **what)
                    ctx.check(all(w[i] <= w[j] + 1e-12 for i in range(n) for j in range(n) if lv[i] < lv[j]), 'favour', 'a worse individual gets more weight', got=w, **what)
                    ctx.check(same(sorted(w), sorted(expected(name, kw, n, k) for k in range(n))), 'weights', 'not the weights of the ranks', got=w,
                              want=[expected(name, kw, n, k) for k in range(n)], **what)
                    key = (name, str(kw))
                    if key in base:
                        ctx.check(same(w, base[key]), 'invariant', 'weights change under an order-preserving change', got=w, before=base[key], **what)
                    base.setdefault(key, w)
                ctx.check(list(form) == before, 'argument', 'the fitnesses were changed', vals=before)
        vals = [float(k) for k in lv]
        for perm in itertools.permutations(range(n)) if perms else []:
            pv = [vals[p] for p in perm]
            for name, kw, r in confs:
                ctx.trans()
                ok, w = ctx.guard('shape-crash', r, array(pv))
                if not ok:
                    continue
                first = base[(name, str(kw))]
                if distinct:
                    ctx.check(same(w, [first[p] for p in perm]), 'equivariant', 'weights do not follow the individuals', function=name, vals=pv, got=list(w), want=[first[p] for p in perm])
                else:
                    for l in set(lv):
                        ctx.check(same(sorted(x for x, k in zip(w, pv) if k == l), sorted(x for x, k in zip(first, lv) if k == l)), 'equivariant',
                                  'the weights of a level change with the order', function=name, vals=pv, got=list(w))
    ctx.outcome(n)


def truncation(ctx, top):
    for n in range(2, top + 1):
        R = [((7 * i) % n) + (.0 if math.gcd(7, n) == 1 else i / 1000.) for i in range(n)]
        order = sorted(range(n), key=lambda i: R[i])
        fracs = sorted(set([Fraction(k, n) for k in range(1, n + 1)] + [Fraction(k, 20) for k in range(1, 21)] + [Fraction(1, 3), Fraction(2, 3)]))
        for fr in fracs:
            ctx.state((n, fr))
            ctx.trans()
            k = math.floor(fr * n)
            ok, w = ctx.guard('top-crash', rf.TopSelection(topFraction=float(fr)), array(R))
            if ok:
                ctx.check([i for i in range(n) if w[i]] == sorted(order[n - k:]) and set(w) <= set([0., 1.]), 'top-number', 'not the configured number of the best', n=n, fraction=str(fr),
                          got=int(sum(w)), want=k)
            if k >= 2:
                ok, w = ctx.guard('top-crash', rf.TopLinearRanking(topFraction=float(fr)), array(R))
                if ok:
                    ctx.check(all(w[i] == 0 for i in order[:n - k]) and all(w[i] > 0 for i in order[n - k + 1:]) and abs(max(w) - 1) < 1e-12,
                              'toplinear-number', 'not the configured number of the best', n=n, fraction=str(fr), got=int(sum(x > 0 for x in w)), want=k)
        r = rf.TopLinearRanking()
        ok, ps = ctx.guard('params-crash', r.getPossibleParameters, n)
        if ok:
            ctx.check(same(list(ps), [k / float(n) for k in range(2, n + 1)]), 'params', 'not the fractions from 2/n to 1', n=n, got=list(ps))
            for p in ps:
                ctx.trans()
                r.setParameter(p)
                w = r(array(R))
                ctx.check(sum(x > 0 for x in w) == round(p * n) - 1, 'params-number', 'not the configured number of the best', n=n, p=float(p), got=list(w))
    ctx.outcome('truncation')


def theory(lv, size):
    """expected number of selections from every level: each individual meets size - 1 uniformly drawn others"""
    n = len(lv)
    out = dict((l, 0.) for l in lv)
    for i in range(n):
        others = [j for j in range(n) if j != i]
        for opp in itertools.product(others, repeat=size - 1):
            out[max(lv[p] for p in (i,) + opp)] += float(n - 1) ** (1 - size)
    return out


def tournament(ctx, n, size):
    for lv in levels(n):
        ctx.state(lv)
        total = [0.] * n
        mass = [0., 0]
        t = rf.TournamentSelection(tournamentSize=size)

        def run(ch):
            with rng.control(ch) as c:
                ok, w = ctx.guard('tournament-crash', t, array(lv, float))
            if not ok:
                return
            prob = 1.
            for m in ch.arity:
                prob /= m
            w = list(w)
            ctx.check(sum(w) == n and all(x == int(x) and x >= 0 for x in w), 'tournament-number', 'not as many selections as individuals', fitness=lv, draws=list(ch.taken), got=w)
            top = [i for i in range(n) if lv[i] == max(lv)]
            ctx.check(sum(w[i] for i in top) >= len(top), 'tournament-best', 'a best individual lost its tournament', fitness=lv, draws=list(ch.taken), got=w)
            low = [i for i in range(n) if lv[i] == min(lv)]
            if len(low) == 1:
                ctx.check(w[low[0]] == 0, 'tournament-worst', 'the strictly worst individual won a tournament', fitness=lv, draws=list(ch.taken), got=w)
            mass[0] += prob
            mass[1] += 1
            for i in range(n):
                total[i] += prob * w[i]
            ctx.outcome(tuple(w))
        # executions that redraw more than once are cut: redraws are independent of the opponents, so the expectation stays the same
        explore(run, horizon=n * (size - 1) + 1)
        ctx.trans(mass[1])
        want = theory(lv, size)
        if mass[0]:
            got = dict((l, sum(total[i] for i in range(n) if lv[i] == l) / mass[0]) for l in want)
            ctx.check(all(abs(got[l] - want[l]) < 1e-9 for l in want), 'tournament', 'over all draws, not the expected selections per level', fitness=lv, got=got, want=want)


def jobs(tier, seed):
    th = tier == 'thorough'
    out = [('shaping-2', shaping, (2, True)), ('shaping-3', shaping, (3, True)), ('shaping-4', shaping, (4, True)), ('truncation', truncation, (60 if th else 30,))]
    if th:
        out.append(('shaping-5', shaping, (5, True)))
    for n, size in ((2, 2), (3, 2), (4, 2), (3, 3)) + (((2, 3), (4, 3)) if th else ((2, 3),)):
        out.append(('tournament-%d-%d' % (n, size), tournament, (n, size)))
    return out
