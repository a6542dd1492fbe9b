"""Coevolution on the real classes: every sequence of games over three players against a list of games; every win/draw/loss matrix for
competitive sharing and shared sampling; every draw of tournaments, selection and reproduction; short runs of all three algorithms
with every outcome of their draws, observed from the evaluator's side; every history of learning calls on one object."""

import itertools
from fractions import Fraction as F
from numpy import array
from mc.choice import explore
from mc import rng
from pybrain.optimization.populationbased.coevolution import Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution

ASSUMPTIONS = ['the evaluator is anti-symmetric', 'at least one individual is selected', 'a generation is allowed before the result is asked for']


class Ind(object):
    """an individual: a parameter vector, a serial number and the individual it was copied from"""
    made = 0

    def __init__(self, x, origin=None):
        Ind.made += 1
        self.id = Ind.made
        self.params = array([float(x)])
        self.origin = origin
        self.mutations = 0
        self.randomized = 0

    def copy(self):
        r = Ind(self.params[0], self)
        r.mutations = self.mutations
        if hasattr(self, 'parent'):
            r.parent = self.parent
        return r

    def _setParameters(self, p):
        self.params = array(p, dtype=float)

    def mutate(self, **args):
        self.mutations += 1
        self.params = self.params + 8.

    def randomize(self):
        self.randomized += 1
        self.params = array([100. + self.id])

    def __repr__(self):
        return 'I%d(%s)' % (self.id, self.params[0])


class First(object):
    def pick(self, n):
        return 0


def plain(cls, n=2, **kw):
    """an algorithm whose populations will be set by hand"""
    with rng.control(First(), unit=[0.], gauss=[0.], perms='none'):
        return cls(lambda a, b: 0, [Ind(0) for _ in range(4)], populationSize=n, **kw)


# ------------------------------------------------------------------------------------ the books
def books(ctx, depth):
    players = 'abc'
    pairs = [(p, q) for p in players for q in players if p != q]
    events = [(p, q, r) for p, q in pairs for r in (-1, 0, 2)]
    for n in range(depth + 1):
        pool = events if n < depth or depth <= 3 else [e for e in events if e[2] != 0]
        for seq in itertools.product(pool, repeat=n):
            if n and seq[0][:2] != ('a', 'b'):
                continue        # players are interchangeable
            g = plain(Coevolution)
            todo = list(seq)
            asked = []

            def ev(p, q):
                asked.append((p, q))
                return todo[len(asked) - 1][2]
            g.relEvaluator = ev
            bad = None
            for p, q, r in seq:
                ok, _ = ctx.guard('game', g._relEval, p, q)
                if not ok:
                    bad = 1
                    break
            if bad:
                continue
            ctx.trans(n)
            ctx.state((seq,))
            key = 'games'
            ctx.check(asked == [s[:2] for s in seq], key, 'evaluator called with other players', seq=seq, asked=asked)
            ctx.check(g.steps == n, key, 'steps are not the number of games', seq=seq, steps=g.steps)
            for p, q in pairs:
                scores = [r for a, b, r in seq if (a, b) == (p, q)]
                rec = g.allResults.get((p, q))
                if not scores:
                    ctx.check(rec is None, key, 'a game is recorded that was not played', seq=seq, pair=(p, q), record=rec)
                else:
                    exp = [sum(1 for r in scores if r > 0), len(scores), sum(scores), scores]
                    ctx.check(rec is not None and list(rec) == exp, key, 'wrong record of two players', seq=seq, pair=(p, q), record=rec, expected=exp)
            for p in players:
                met = set(b for a, b, r in seq if a == p)
                ctx.check(set(g.allOpponents.get(p, [])) == met, key, 'wrong opponents', seq=seq, player=p)
    ctx.outcome('done')


def score_oracle(hist, p, q):
    """average score of p against q over the games played in both directions"""
    own = [r for a, b, r in hist if (a, b) == (p, q)] + [-r for a, b, r in hist if (a, b) == (q, p)]
    return F(sum(own), len(own)) if own else F(0)


def scores(ctx, rounds):
    """double games (both directions), in any number and order"""
    players = 'abc'
    duels = [(p, q, r, s) for p, q in itertools.combinations(players, 2) for r in (-1, 0, 1) for s in (-1, 1, 3)]
    for n in range(rounds + 1):
        for seq in itertools.combinations_with_replacement(duels, n):
            g = plain(Coevolution)
            hist = []
            for p, q, r, s in seq:
                hist += [(p, q, r), (q, p, s)]
            it = iter(hist)
            g.relEvaluator = lambda a, b: next(it)[2]
            for p, q, r in list(hist):
                g._relEval(p, q)
            ctx.state(seq)
            ctx.trans(len(hist))
            for p in players:
                for q in players:
                    if p == q:
                        continue
                    ok, v = ctx.guard('score', g._beats, p, q)
                    if ok:
                        ctx.check(abs(v - float(score_oracle(hist, p, q))) < 1e-12, 'score', 'not the average score of the pair', hist=hist, pair=(p, q), value=v)
                ok, v = ctx.guard('score', g._globalScore, p)
                own = [r for a, b, r in hist if a == p] + [-r for a, b, r in hist if b == p]
                exp = sum(own) / float(len(own)) if own else 0.
                # the score may be biased slightly in favour of players with more games
                if ok:
                    ctx.check(abs(v - exp) <= 0.0101 * abs(exp) + 1e-12, 'score', 'not the average over all games of a player', hist=hist, player=p, value=v, expected=exp)
    ctx.outcome('done')


# ------------------------------------------------------------------------------------ sharing
def put(g, p, q, val):
    """a result p-q in both directions"""
    if val is None:
        return
    g.allResults[(p, q)] = [int(val > 0), 1, float(val), [val]]
    g.allResults[(q, p)] = [int(val < 0), 1, float(-val), [-val]]
    g.allOpponents.setdefault(p, []).append(q)
    g.allOpponents.setdefault(q, []).append(p)


def sharing(ctx, shapes, vals):
    for nh, npar in shapes:
        hosts = ['h%d' % i for i in range(nh)]
        paras = ['p%d' % i for i in range(npar)]
        for m in itertools.product(vals, repeat=nh * npar):
            g = plain(CompetitiveCoevolution)
            res = {}
            for k, (h, p) in enumerate(itertools.product(hosts, paras)):
                put(g, h, p, m[k])
                res[h, p] = m[k]
            ctx.state((nh, npar, m))
            ctx.trans()
            ok, fit = ctx.guard('sharing', g._competitiveSharedFitness, hosts, paras)
            if not ok:
                continue
            exp = []
            for h in hosts:
                tot, decided = F(0), 0
                for p in paras:
                    v = res[h, p]
                    if v is not None and v != 0:
                        decided += 1
                        if v > 0:
                            tot += F(1, sum(1 for o in hosts if res[o, p] is not None and res[o, p] > 0))
                exp.append(tot / decided if decided else tot)
            good = len(fit) == nh and all(abs(f - float(e)) < 1e-4 for f, e in zip(fit, exp))
            ctx.check(good, 'sharing', 'not the competitive shared fitness', results=m, shape=(nh, npar), fitness=fit, expected=[str(e) for e in exp])
            if good:
                # equal shares are ordered by the overall score
                for i in range(nh):
                    for j in range(nh):
                        if exp[i] == exp[j] and g._globalScore(hosts[i]) > g._globalScore(hosts[j]) + 1e-6:
                            ctx.check(fit[i] > fit[j], 'sharing', 'a tie is not broken by the overall score', results=m, fitness=fit)
    ctx.check(g._competitiveSharedFitness(['a', 'b'], []) == [0, 0], 'sharing', 'without opponents nobody has a score')
    ctx.outcome('done')


def sampling(ctx, shapes, vals):
    """greedy cover: always one that beats most of those nobody chosen so far has beaten, the overall score deciding ties"""
    for nc, nr in shapes:
        cands = ['c%d' % i for i in range(nc)]
        rels = ['r%d' % i for i in range(nr)]
        for m in itertools.product(vals, repeat=nc * nr):
            won = {}
            g = plain(Coevolution)
            for k, (c, r) in enumerate(itertools.product(cands, rels)):
                put(g, c, r, m[k])
                if m[k] is not None and m[k] > 0:
                    won.setdefault(c, set()).add(r)
            # ties: the overall score
            glob = dict((c, g._globalScore(c)) for c in cands)
            ctx.state((nc, nr, m))
            for k in range(0, nc + 1):
                def run(ch):
                    with rng.control(ch, unit=[0.], gauss=[0.], perms='rot'):
                        c0, r0 = cands[:], rels[:]
                        ok, sel = ctx.guard('sampling', g._sharedSampling, k, c0, r0)
                    if not ok:
                        return
                    ctx.trans()
                    ctx.check(c0 == cands and r0 == rels, 'sampling', 'sampling changes its arguments', results=m)
                    good = len(sel) == k and len(set(sel)) == k and set(sel) <= set(cands)
                    ctx.check(good, 'sampling', 'not that many distinct candidates', results=m, wanted=k, selected=sel)
                    if not good:
                        return
                    left = set(rels)
                    pool = list(cands)
                    for c in sel:
                        rank = lambda x: (len(won.get(x, set()) & left), glob[x])
                        best = max(rank(x) for x in pool)
                        ctx.check(rank(c) == best, 'sampling', 'not the candidate beating most of the others\' survivors', results=m, shape=(nc, nr), selected=sel, at=c)
                        left -= won.get(c, set())
                        pool.remove(c)
                explore(run)
    ctx.outcome('done')


# ------------------------------------------------------------------------------------ tournaments
def tournaments(ctx, top):
    for n1 in range(1, top + 1):
        for n2 in range(1, top + 1):
            for shared in range(0, min(n1, n2) + 1):
                a = ['x%d' % i for i in range(n1)]
                b = a[:shared] + ['y%d' % i for i in range(n2 - shared)]
                for size in [None] + list(range(0, n2 + 2)):
                    if n1 * (size if size and size < n2 else 0) > 4:
                        continue
                    seen = set()

                    def run(ch):
                        g = plain(Coevolution)
                        games = []

                        def ev(p, q):
                            games.append((p, q))
                            return 0
                        g.relEvaluator = ev
                        a0, b0 = a[:], b[:]
                        with rng.control(ch, unit=[0.], gauss=[0.], perms='none'):
                            ok, _ = ctx.guard('tournament', g._doTournament, a0, b0, *([] if size is None else [size]))
                        if not ok:
                            return
                        ctx.trans(len(games))
                        ctx.state((n1, n2, shared, size, tuple(games)))
                        ctx.check(a0 == a and b0 == b, 'tournament', 'a tournament changes the populations', a=a, b=b)
                        ctx.check(all(p != q for p, q in games), 'tournament', 'somebody plays itself', games=games)
                        from collections import Counter
                        cnt = Counter(games)
                        exp_games = 0
                        for p in a:
                            others = [q for q in b if q != p]
                            exp_games += 2 * (len(others) if size is None else min(size, len(others)))
                        ctx.check(len(games) == exp_games, 'tournament', 'not the agreed number of games', a=a, b=b, size=size, games=games)
                        ctx.check(all(cnt[p, q] == cnt[q, p] for p, q in cnt), 'tournament', 'a pair did not play in both directions', games=games)
                        ctx.check(all((p in a and q in b) or (q in a and p in b) for p, q in cnt), 'tournament', 'strangers play', games=games)
                        for p in a:
                            others = [q for q in b if q != p]
                            want = len(others) if size is None else min(size, len(others))
                            mine = [q for q in others if cnt[p, q]]
                            ctx.check(len(mine) >= want, 'tournament', 'not as many distinct opponents as agreed', player=p, games=games, size=size)
                        if games:
                            seen.add(frozenset(q for p, q in games[:2 * (size or 0)] if p == games[0][0]))
                    explore(run)
                    if size and shared == 0 and size < n2:
                        from math import factorial as f
                        want = f(n2) // f(size) // f(n2 - size)
                        ctx.check(len(seen) == want, 'tournament', 'some opponents can never be drawn', n2=n2, size=size, seen=[sorted(s) for s in seen])
    ctx.outcome('done')


# ------------------------------------------------------------------------------------ reproduction
def reproduction(ctx, cls, top):
    for n in range(2, top + 1):
        for prop in (0.34, 0.5, 0.75, 1.):
            k = int(n * prop)
            if k < 1:
                continue
            for elit in (False, True):
                for avg in (1., 0.75, 0.):
                    for fits in itertools.product((0., 1., 2.5), repeat=n):
                        if n == top and n > 3 and (fits[0] != 1. or len(set(fits)) < 3):
                            continue
                        _reproduce(ctx, cls, n, prop, k, elit, avg, fits)
    ctx.outcome('done')


def _reproduce(ctx, cls, n, prop, k, elit, avg, fits):
    key = 'reproduction'

    def run(ch):
        g = plain(cls, n, elitism=elit, selectionProportion=prop, parentChildAverage=avg)
        pop = [Ind(i) for i in range(n)]
        if avg < 1:
            for i, p in enumerate(pop):
                # some have parents from earlier generations
                p.parent = Ind(-50.) if i % 2 else None
        before = [(p, p.params[0]) for p in pop]
        p0, f0 = pop[:], list(fits)
        with rng.control(ch, unit=[0.], gauss=[0.], perms='rot'):
            ok, new = ctx.guard(key, g._selectAndReproduce, p0, f0)
        if not ok:
            return
        ctx.trans()
        info = dict(n=n, selected=k, elitism=elit, average=avg, fits=fits)
        ctx.check(len(new) == n, key, 'the population changes its size', new=len(new), **info)
        ctx.check(all(p.params[0] == v for p, v in before) and p0 == pop and f0 == list(fits), key, 'selection changes the old population', **info)
        ctx.check(len(set(map(id, new))) == len(new), key, 'somebody is there twice', **info)
        srt = sorted(fits, reverse=True)
        thresh = srt[k - 1]
        index = dict((id(p), i) for i, p in enumerate(pop))
        old = [p for p in new if id(p) in index]
        if elit:
            got = sorted((fits[index[id(p)]] for p in old), reverse=True)
            ctx.check(got == srt[:k], key, 'survivors are not the best ones', survivors=got, **info)
        else:
            ctx.check(not old, key, 'somebody survives without elitism', **info)
        seen = []
        for p in new:
            if id(p) in index:
                continue
            root, hops = p, 0
            while root is not None and id(root) not in index:
                root = root.origin
            if root is None:
                ctx.fail(key, 'a child of nobody in the population', **info)
                return
            ctx.check(fits[index[id(root)]] >= thresh, key, 'a child of somebody who was not selected', fit=fits[index[id(root)]], **info)
            ctx.check(p.mutations == 1, key, 'a child is not mutated once', mutations=p.mutations, **info)
            exp = avg * (root.params[0] + 8.) + (1 - avg) * root.params[0]
            ctx.check(abs(p.params[0] - exp) < 1e-9, key, 'a child is not the agreed mixture with its parent', value=p.params[0], expected=exp, **info)
            if avg < 1:
                ctx.check(p.parent is root, key, 'a child does not know its parent', **info)
            seen.append(index[id(root)])
        ctx.state((cls.__name__, n, k, elit, avg, fits, tuple(seen)))
    explore(run, bound=2 if n > 3 else None)


def extension(ctx, top):
    """initial populations: the seeds, and mutated copies of any of them"""
    for cls in (Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution):
        for n in range(1, top + 1):
            for ns in range(1, top + 2):
                for avg in (1., 0.5):
                    if cls is Coevolution and ns > n:
                        continue
                    npops = 3
                    if cls is CompetitiveCoevolution and (ns + 1) // 2 > n:
                        continue
                    if cls is MultiPopulationCoevolution and -(-ns // npops) > n:
                        continue

                    def run(ch):
                        seeds = [Ind(i) for i in range(ns)]
                        given = seeds[:]
                        kw = dict(numPops=npops) if cls is MultiPopulationCoevolution else {}
                        with rng.control(ch, unit=[0.], gauss=[0.], perms='none'):
                            ok, g = ctx.guard('start', cls, lambda a, b: 0, given, populationSize=n, parentChildAverage=avg, **kw)
                        if not ok:
                            return
                        ctx.trans()
                        info = dict(algorithm=cls.__name__, n=n, seeds=ns, average=avg)
                        ctx.check(given == seeds and [s.params[0] for s in seeds] == list(map(float, range(ns))), 'start', 'the seeds are changed', **info)
                        pops = [g.pop]
                        if cls is CompetitiveCoevolution:
                            pops = [g.pop, g.parasitePop]
                        elif cls is MultiPopulationCoevolution:
                            pops = g.pops
                            ctx.check(len(pops) == npops and g.pop is pops[0], 'start', 'wrong number of populations', pops=len(pops), **info)
                        ctx.check(all(len(p) == n for p in pops), 'start', 'wrong population size', sizes=[len(p) for p in pops], **info)
                        allp = [x for p in pops for x in p]
                        ctx.check(len(set(map(id, allp))) == len(allp), 'start', 'somebody is there twice', **info)
                        ctx.check(all(any(s is x for x in allp) for s in seeds), 'start', 'a seed is missing', **info)
                        ids = set(map(id, seeds))
                        for p in pops:
                            mine = set(map(id, p))
                            for x in p:
                                if id(x) in ids or x.randomized:
                                    continue
                                ctx.check(id(x.origin) in mine and x.mutations == x.origin.mutations + 1 and abs(x.params[0] - x.origin.params[0] - 8.) < 1e-9,
                                          'start', 'an additional individual is not a mutated copy of a seed of its population', x=repr(x), **info)
                        ctx.state((cls.__name__, n, ns, avg, tuple(tuple((x.params[0] if not x.randomized else 'r') for x in p) for p in pops)))
                    explore(run, bound=3)
    ctx.outcome('done')


# ------------------------------------------------------------------------------------ whole runs
def runs(ctx, cls, configs, bound):
    for cfg in configs:
        _runs(ctx, cls, cfg, bound)
    ctx.outcome('done')


def _runs(ctx, cls, cfg, bound):
    cfg = dict(cfg)
    ns = cfg.pop('seeds', 2)
    limit = cfg.pop('limit')                       # ('steps', k) given to learn / ('evals', k) / ('gens', k)
    key = 'run'
    n = cfg['populationSize']
    ts = cfg.get('tournamentSize', n)
    hofp = cfg.get('hallOfFameEvaluation', 0.)
    npops = cfg.get('numPops', 10)

    def run(ch):
        Ind.made = 0
        games = []
        gens = []

        def ev(p, q):
            r = (p.params[0] * 3 + q.params[0] * 5) % 7 - (q.params[0] * 3 + p.params[0] * 5) % 7
            games.append((p, q, r))
            return r
        kw = dict(cfg)
        if limit[0] == 'evals':
            kw['maxEvaluations'] = limit[1]
        elif limit[0] == 'gens':
            kw['maxGenerations'] = limit[1]
        if cfg.get('absEvalProportion'):
            kw['absEvaluator'] = lambda p: p.params[0] * 2.
        with rng.control(ch, unit=[0.], gauss=[0.], perms='none'):
            ok, g = ctx.guard(key, cls, ev, [Ind(i) for i in range(ns)], **kw)
            if not ok:
                return
            one = g._oneGeneration

            def generation():
                pop = list(g.pop)
                rest = list(getattr(g, 'parasitePop', []))
                pops = [list(p) for p in getattr(g, 'pops', [])]
                first = len(games)
                g2 = g.generation
                hof = list(g.hallOfFame)
                one()
                gens.append(dict(pop=pop, rest=rest, pops=pops, games=games[first:], past=first, hof=hof, newhof=list(g.hallOfFame), fits=g.hallOfFitnesses[-1],
                                 after=list(g.pop), afterrest=list(getattr(g, 'parasitePop', [])), gen=g2))
            g._oneGeneration = generation
            if limit[0] == 'steps':
                ok, best = ctx.guard(key, g.learn, limit[1])
            else:
                ok, best = ctx.guard(key, g.learn)
        if not ok:
            return
        info = dict(algorithm=cls.__name__, config=cfg, limit=limit)
        ctx.trans(len(games))
        ctx.state((cls.__name__, str(sorted(cfg.items())), str(limit), tuple((p.id, q.id) for p, q, r in games)))
        ctx.check(g.steps == len(games), key, 'steps are not the number of games', steps=g.steps, games=len(games), **info)
        if limit[0] in ('steps', 'evals'):
            ctx.check(len(games) <= limit[1], key, 'more games than allowed', games=len(games), **info)
        else:
            ctx.check(len(gens) == limit[1], key, 'not the agreed number of generations', generations=len(gens), **info)
        ctx.check(g.generation == len(gens) == len(g.hallOfFame) == len(g.hallOfFitnesses) == len(g.oldPops), key, 'not one entry per generation', **info)
        ctx.check(best is g.hallOfFame[-1], key, 'learning does not return the last champion', **info)
        for t, e in enumerate(gens):
            hist = games[:e['past'] + len(e['games'])]
            book = {}
            for p, q, r in hist:
                for a, b, v in ((id(p), id(q), r), (id(q), id(p), -r)):
                    c = book.setdefault((a, b), [0., 0])
                    c[0] += v
                    c[1] += 1

            def beats(p, q):
                c = book.get((id(p), id(q)))
                return c[0] / c[1] if c else 0.
            pop = e['pop']
            ctx.check(len(pop) == n, key, 'population size changes', size=len(pop), **info)
            ctx.check(len(e['newhof']) == len(e['hof']) + 1 and any(e['newhof'][-1] is p for p in pop), key, 'the champion is not one of the population', **info)
            ctx.check(any(g.oldPops[t] == pop for _ in [0]), key, 'old populations are not kept', **info)
            nh = min(t + 1, int(ts * hofp)) if cls is not MultiPopulationCoevolution else 0
            # who met whom
            if cls is MultiPopulationCoevolution:
                main = t % npops
                groups = [([p for p in e['pops'][j]][:max(1, len(e['pops'][j]) // 2)], ts) for j in range(npops) if j != main]
                ctx.check(e['pops'][main] == pop, key, 'populations do not take turns', **info)
            elif cls is CompetitiveCoevolution:
                groups = [(e['rest'], ts - nh)]
            else:
                groups = [(pop, ts - nh)]
            if nh:
                uniq = []
                for h in e['hof']:
                    if not any(h is u for u in uniq):
                        uniq.append(h)
                groups.append((uniq, nh))
            allowed = [q for grp, k in groups for q in grp]
            for p, q, r in e['games']:
                ctx.check(p is not q, key, 'somebody plays itself', **info)
                ctx.check((any(p is x for x in pop) and any(q is x for x in allowed)) or (any(q is x for x in pop) and any(p is x for x in allowed)),
                          key, 'a game of somebody who is not taking part', **info)
            if cls is not CompetitiveCoevolution or not nh:
                want = sum(2 * min(k, sum(1 for q in grp if q is not p)) for grp, k in groups for p in pop)
                if not (cfg.get('useSharedSampling')):
                    ctx.check(len(e['games']) == want, key, 'not the agreed number of games in a generation', games=len(e['games']), expected=want, generation=t, **info)
            # the champion
            shared = cfg.get('useSharedSampling')
            if cls is Coevolution and not shared:
                fit = [sum(beats(p, q) for q in pop) + (sum(beats(p, q) for q in uniq) if nh else 0.) for p in pop]
            elif cls is MultiPopulationCoevolution:
                fit = [sum(beats(p, q) for j in range(npops) if j != main for q in e['pops'][j]) for p in pop]
            elif cls is CompetitiveCoevolution and not nh:
                fit = []
                for p in pop:
                    wins = [q for q in e['rest'] if beats(p, q) > 0]
                    dec = [q for q in e['rest'] if beats(p, q) != 0]
                    s = sum(1. / sum(1 for o in pop if beats(o, q) > 0) for q in wins)
                    fit.append(s / len(dec) if dec else s)
            else:
                fit = None
            if fit is not None:
                a = cfg.get('absEvalProportion', 0)
                if a and cls is not CompetitiveCoevolution:
                    fit = [(1 - a) * f + a * p.params[0] * 2. for f, p in zip(fit, pop)]
                tol = 2e-4 if cls is CompetitiveCoevolution else 1e-9
                champ = [i for i, p in enumerate(pop) if p is e['newhof'][-1]]
                ctx.check(champ and fit[champ[0]] >= max(fit) - tol, key, 'the champion is not the best of its generation', fitness=fit, generation=t, **info)
                k = int(n * cfg.get('selectionProportion', 0.5))
                exp = sorted(fit, reverse=True)[:k]
                ctx.check(len(e['fits']) == k and all(abs(x - y) < tol for x, y in zip(e['fits'], exp)), key, 'hall of fitnesses is not the best scores',
                          got=list(e['fits']), expected=exp, generation=t, **info)
            # roles
            if cls is CompetitiveCoevolution:
                ctx.check(e['after'] == e['rest'], key, 'hosts and parasites do not change roles', **info)
                offs = e['afterrest']
            elif cls is MultiPopulationCoevolution:
                nxt = gens[t + 1]['pops'] if t + 1 < len(gens) else g.pops
                ctx.check(all(nxt[j] == e['pops'][j] for j in range(npops) if j != main), key, 'a population changes out of turn', **info)
                offs = nxt[main]
            else:
                offs = e['after']
            ctx.check(len(offs) == n, key, 'population size changes', size=len(offs), **info)
            mine = set(map(id, pop))
            for x in offs:
                r = x
                while r is not None and id(r) not in mine:
                    r = r.origin
                ctx.check(r is not None, key, 'an individual does not descend from the population', **info)
    explore(run, bound=bound)


def calls(ctx, depth):
    """every history of learning calls on one object: each call has its own allowance of games, the object-wide limits hold throughout"""
    for cls, more, extra in ((Coevolution, 1, {}), (Coevolution, 1, dict(tournamentSize=2, elitism=True)), (CompetitiveCoevolution, 1, {}), (MultiPopulationCoevolution, 2, dict(numPops=3))):
        n = 3
        full = 2 * n * extra.get('tournamentSize', n) * more
        asks = [full - 1, full, 2 * full - 1, 2 * full, 3 * full]
        for lim in (None, ('maxGenerations', 3), ('maxEvaluations', 2 * full), ('maxEvaluations', 3 * full + 1)):
            def run(ch):
                games, gens = [], []

                def ev(p, q):
                    games.append(1)
                    return (p.params[0] * 3 + q.params[0] * 5) % 7 - (q.params[0] * 3 + p.params[0] * 5) % 7
                kw = dict(extra)
                if lim:
                    kw[lim[0]] = lim[1]
                with rng.control(First(), unit=[0.], gauss=[0.], perms='none'):
                    ok, g = ctx.guard('calls', cls, ev, [Ind(i) for i in range(2)], populationSize=n, selectionProportion=0.67, **kw)
                    if not ok:
                        return
                    one = g._oneGeneration

                    def generation():
                        gens.append(1)
                        one()
                    g._oneGeneration = generation
                    log = []
                    for i in range(depth):
                        k = ch.of(asks[1:] if i == 0 else (asks + [None] if lim else asks))
                        log.append(k)
                        before, past = len(games), len(gens)
                        ok, best = ctx.guard('calls', g.learn, k)
                        if not ok:
                            return
                        ctx.trans()
                        used = len(games) - before
                        info = dict(algorithm=cls.__name__, config=extra, limit=lim, calls=list(log), used=used, generations=len(gens) - past)
                        ctx.check(k is None or used <= k, 'calls', 'more games than allowed in a call', **info)
                        ctx.check(g.steps == len(games) and g.generation == len(gens) == len(g.hallOfFame), 'calls', 'steps or generations are miscounted', steps=g.steps, **info)
                        ctx.check(best is g.hallOfFame[-1], 'calls', 'learning does not return the last champion', **info)
                        stop = k is not None and used + full > k
                        if lim and lim[0] == 'maxGenerations':
                            ctx.check(len(gens) <= lim[1], 'calls', 'more generations than allowed', **info)
                            stop = stop or len(gens) == lim[1]
                        elif lim:
                            ctx.check(len(games) <= lim[1], 'calls', 'more games than allowed altogether', **info)
                            stop = stop or len(games) + full > lim[1]
                        ctx.check(stop, 'calls', 'a call ends although another generation fits', **info)
                        ctx.state((cls.__name__, str(extra), lim, tuple(log)))
                ctx.trace()
            explore(run)
    ctx.outcome('done')


def jobs(tier, seed):
    q = tier == 'quick'
    n, c, m = Coevolution, CompetitiveCoevolution, MultiPopulationCoevolution
    lims = [('gens', 1), ('gens', 3)]
    base = [dict(populationSize=3, selectionProportion=0.67), dict(populationSize=3, selectionProportion=0.67, elitism=True),
            dict(populationSize=4, elitism=True, tournamentSize=2), dict(populationSize=2, parentChildAverage=0.5),
            dict(populationSize=3, selectionProportion=0.34, hallOfFameEvaluation=0.67, elitism=True),
            dict(populationSize=3, selectionProportion=0.67, absEvalProportion=0.5), dict(populationSize=3, selectionProportion=0.67, useSharedSampling=True, tournamentSize=2)]
    ca = [dict(b, limit=l) for b in base for l in lims]
    for b in base:
        full = 2 * b['populationSize'] * b.get('tournamentSize', b['populationSize'])
        for k in (full, full + 1, 2 * full - 1, 2 * full, 3 * full):
            for w in ('steps', 'evals'):
                ca.append(dict(b, limit=(w, k)))
    cm = []
    for b in base:
        if b.get('hallOfFameEvaluation') or b.get('useSharedSampling'):
            continue
        for np_ in (2, 3):
            full = 2 * b['populationSize'] * b.get('tournamentSize', b['populationSize']) * (np_ - 1)
            for l in [('gens', 1), ('gens', 4), ('steps', full), ('steps', 2 * full + 1), ('evals', 3 * full - 1)]:
                cm.append(dict(b, limit=l, numPops=np_, seeds=2))
    h = 1 if q else 2
    shp = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] + ([] if q else [(3, 3)])
    smp = [(1, 1), (2, 2), (2, 3), (3, 2)] + ([] if q else [(3, 3)])
    return [('books', books, (3 if q else 4,)), ('scores', scores, (3 if q else 4,)),
            ('sharing', sharing, (shp, (None, -1, 0, 1))), ('sampling', sampling, (smp, (None, -1, 1))),
            ('tournaments', tournaments, (3 if q else 4,)), ('reproduction', reproduction, (n, 3 if q else 4)),
            ('calls', calls, (3 if q else 4,)), ('start', extension, (3 if q else 4,)),
            ('runs-plain', runs, (n, ca, h)), ('runs-competitive', runs, (c, ca, h)), ('runs-multi', runs, (m, cm, h))]
