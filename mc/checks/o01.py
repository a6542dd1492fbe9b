"""Every sequence of objective answers over a 3-value alphabet (ties, improvements, regressions), each new point
answered afresh, for every optimiser of the library with small populations x minimisation/maximisation x start kinds x
evaluation limits, step limits, desired values and continued runs; random draws are scripted. The recorded evaluations
decide what the best point, the stored histories and the number of evaluations and steps had to be. Also every position
of a non-finite answer."""

import itertools
from mc.choice import explore
from mc.core import StopJob
from mc import rng, optlib
from mc.optlib import Objective, vec, start, draws
from pybrain.structure.evolvables.maskedparameters import MaskedParameters
from pybrain.structure.parametercontainer import ParameterContainer

ASSUMPTIONS = ['the objective is a function: equal points get equal values', 'one evaluator per optimiser object',
               'evaluations an optimiser makes on construction (initial point or population) are not limited',
               'within one learning step (generation) the desired value does not stop the remaining evaluations']
CONFS = dict((c.name, c) for c in optlib.confs())


def run(c, f, kind, minimize, settle, n, steps, units=None, **kw):
    """returns optimiser, result, evaluation counts at construction and after every step"""
    marks = []
    with draws(n, units):
        x0 = start(c.dim, kind)
        args = dict(c.kw)
        args.update(kw)
        if settle == 'kw':
            args['minimize'] = minimize
        o = c.cls(f, x0, **args) if settle != 'late' else c.cls(**args)
        if settle == 'late':
            o.minimize = minimize
            o.setEvaluator(f, x0)
        elif settle == 'after':
            o.minimize = minimize
        marks.append(len(f.rec))
        o.listener = lambda e, v: marks.append(len(f.rec))
        res = None
        for k in steps:
            res = o.learn(k) if k is not None else o.learn()
        if not steps:
            res = o.learn()
    return o, res, marks


def judge(ctx, c, f, o, res, minimize, cfg, check_best=True):
    x, v = res
    pts = [p for p, _ in f.rec]
    vals = [a for _, a in f.rec]
    ok = ctx.check(o.numEvaluations == len(f.rec), 'count:%s' % cfg, 'number of evaluations', got=o.numEvaluations, want=len(f.rec))
    if vals:
        best = min(vals) if minimize else max(vals)
        ok = ctx.check(v == best, 'value:%s' % cfg, 'reported value is the best one seen', got=v, want=best, seen=f.rec) and ok
        ok = ctx.check((vec(x), best) in f.rec, 'point:%s' % cfg, 'reported point is an evaluated point with the best value',
                       got=vec(x), value=best, seen=f.rec) and ok
    if not ok:
        raise StopJob()


def answers_job(ctx, name, kind, minimize, settle, maxeval, menu, third):
    c = CONFS[name]

    def body(ch):
        f = Objective(lambda p: menu[ch.pick(len(menu))])
        units = None
        if third:
            units = lambda: (0.0, 0.97)[ch.pick(2)]
        store = ch.pick(2) == 1
        kw = dict(maxEvaluations=maxeval)
        if store:
            kw.update(storeAllEvaluated=True, storeAllEvaluations=True)
        cfg = '%s:%s:min=%s:%s:%d:%s' % (name, kind, minimize, settle, maxeval, ''.join(str(t) for t in ch.taken))
        ok, r = ctx.guard('crash:' + cfg, run, c, f, kind, minimize, settle, 0, [], units, **kw)
        cfg = '%s:%s:min=%s:%s:%d:%s' % (name, kind, minimize, settle, maxeval, ''.join(str(t) for t in ch.taken))
        if not ok:
            raise StopJob()
        o, res, marks = r
        judge(ctx, c, f, o, res, minimize, cfg)
        n = len(f.rec)
        ctx.check(marks[0] == c.init, 'init:' + cfg, 'evaluations at construction', got=marks[0], want=c.init)
        ctx.check(n <= max(c.init, maxeval), 'limit:' + cfg, 'more evaluations than the limit allows', got=n, limit=maxeval)
        if not c.selfstop:
            ctx.check(n + c.step > maxeval, 'short:' + cfg, 'stopped although another step fits the limit', got=n, step=c.step, limit=maxeval)
        if store:
            ctx.check([float(v) for v in o._allEvaluations] == [v for _, v in f.rec], 'stored values:' + cfg, 'stored evaluations', got=list(o._allEvaluations), want=[v for _, v in f.rec])
            ctx.check([vec(x) for x in o._allEvaluated] == [p for p, _ in f.rec], 'stored points:' + cfg, 'stored evaluables',
                      got=[vec(x) for x in o._allEvaluated], want=[p for p, _ in f.rec])
        if kind == 'pc':
            ctx.check(isinstance(res[0], ParameterContainer), 'kind:' + cfg, 'a container start gives a container result', got=type(res[0]).__name__)
        ctx.trans(n)
        ctx.trace()
        ctx.state((name, kind, minimize, tuple(f.rec)))
        ctx.outcome((vec(res[0]), res[1]))
        ctx.sample(dict(config=cfg, evaluations=f.rec, best=[vec(res[0]), res[1]]))

    explore(body)


SCHEDULES = [(dict(), [1], 1), (dict(), [2], 2), (dict(), [1, 1], 2), (dict(), [0], 0), (dict(maxLearningSteps=1), [], 1),
             (dict(maxLearningSteps=2), [], 2), (dict(maxLearningSteps=2), [None, None], 2), (dict(maxLearningSteps=1), [None, 1], 2)]


def budgets():
    """every step limit at construction, used up or not, followed by every one or two demands for more steps"""
    out = []
    for m in (None, 0, 1, 3):
        for first in ([], [None]) if m is not None else ([],):
            for n in (1, 2):
                for ks in itertools.product((0, 1, 2), repeat=n):
                    out.append((dict() if m is None else dict(maxLearningSteps=m), first + list(ks), (m if first else 0) + sum(ks)))
    return out


def limits_job(ctx, name, minimize):
    """learning-step limits, continued learning, desired values, every evaluation limit"""
    c = CONFS[name]
    menu = (0.0, 1.0)
    # the same two answers patterns for all runs: fixed by position
    for pat in range(16):
        def mk():
            seq = iter(lambda: 0, 1)
            k = [0]

            def ans(p):
                k[0] += 1
                return menu[(pat >> ((k[0] - 1) % 4)) & 1] + 0.001 * k[0]
            return Objective(ans)
        for kw, steps, want in SCHEDULES if pat != 5 else SCHEDULES + budgets():
            f = mk()
            if c.slack:
                kw = dict(kw, maxEvaluations=40)    # one learning step is the whole search
            cfg = '%s:min=%s:steps:%s:%s:%d' % (name, minimize, kw, steps, pat)
            ok, r = ctx.guard('crash:' + cfg, run, c, f, 'vec', minimize, 'kw', 0, steps, **kw)
            if not ok:
                raise StopJob()
            o, res, marks = r
            done = len(marks) - 1
            good = done == want if not c.selfstop else done <= want and (want == 0 or done >= 1)
            ctx.check(good, 'steps:' + cfg, 'number of learning steps', got=done, want=want)
            ctx.check(o.numLearningSteps == done, 'stepcount:' + cfg, 'counted learning steps', got=o.numLearningSteps, want=done)
            if not c.selfstop:
                ctx.check(all(b - a == c.step for a, b in zip(marks, marks[1:])), 'per step:' + cfg, 'evaluations per step', got=marks, want=c.step)
            if len(f.rec):
                judge(ctx, c, f, o, res, minimize, cfg)
            if steps == [1]:
                one = f.rec
            if steps == [2]:
                two = f.rec
            if steps == [1, 1] and c.name.split(':')[0] != 'NelderMead':
                ctx.check(f.rec == two, 'continue:' + cfg, 'learning 1+1 steps visits what learning 2 steps visits', got=f.rec, want=two)
            ctx.trans(len(f.rec))
            ctx.trace()
            ctx.state((name, minimize, str(kw), tuple(steps), pat))
        for limit in range(1, c.init + 3 * c.step + 3):
            f = mk()
            cfg = '%s:min=%s:limit:%d:%d' % (name, minimize, limit, pat)
            ok, r = ctx.guard('crash:' + cfg, run, c, f, 'vec', minimize, 'kw', 0, [], maxEvaluations=limit)
            if not ok:
                raise StopJob()
            o, res, marks = r
            n = len(f.rec)
            if n:
                judge(ctx, c, f, o, res, minimize, cfg)
            ctx.check(n <= max(c.init, limit), 'limit:' + cfg, 'more evaluations than the limit allows', got=n, limit=limit)
            if not c.selfstop:
                ctx.check(n + c.step > limit, 'short:' + cfg, 'stopped although another step fits the limit', got=n, step=c.step, limit=limit)
            ctx.trans(n)
            ctx.trace()
            ctx.state((name, minimize, limit, pat))
        for want in (1.0, 1.9) if not minimize else (0.5, 0.0):
            for settle in ('kw', 'late', 'after'):
                f = mk()
                cfg = '%s:min=%s:desired=%s:%s:%d' % (name, minimize, want, settle, pat)
                limit = c.init + 4 * c.step + 8 * c.slack
                ok, r = ctx.guard('crash:' + cfg, run, c, f, 'vec', minimize, settle, 0, [], maxEvaluations=limit, desiredEvaluation=want)
                if not ok:
                    raise StopJob()
                o, res, marks = r
                n = len(f.rec)
                hit = [i for i, (_, v) in enumerate(f.rec) if (v <= want if minimize else v >= want)]
                if hit:
                    ends = [m for m in marks if m > hit[0]]
                    end = ends[0] if ends else n
                    if c.slack:
                        end = min(end, hit[0] + 1 + c.slack)
                    ctx.check(n <= end, 'desired:' + cfg, 'goes on after the desired value was reached', got=n, first=hit[0] + 1, steps=marks)
                elif not c.selfstop:
                    ctx.check(n + c.step > limit, 'undesired:' + cfg, 'stopped before the desired value was reached', got=n, limit=limit, seen=f.rec)
                if n:
                    judge(ctx, c, f, o, res, minimize, cfg)
                ctx.trans(n)
                ctx.trace()
                ctx.state((name, minimize, want, settle, pat))


def diverge_job(ctx, name, minimize):
    c = CONFS[name]
    ops = (MaskedParameters.mutate, MaskedParameters.topologyMutate)
    for bad in (float('inf'), float('-inf'), float('nan')):
        for at in range(c.init + 3 * c.step + 2):
            k = [0]

            def ans(p):
                k[0] += 1
                return bad if k[0] == at + 1 else float((k[0] * 7) % 5)
            f = Objective(ans)
            cfg = '%s:min=%s:%s at %d' % (name, minimize, bad, at)
            try:
                o, res, marks = run(c, f, 'vec', minimize, 'kw', 0, [], maxEvaluations=c.init + 3 * c.step)
            except Exception as e:
                # at construction there is nothing to return yet
                ctx.check(at < c.init, 'diverge crash:' + cfg, 'a non-finite value ends the search quietly', error=repr(e))
                o = None
            ctx.check((MaskedParameters.mutate, MaskedParameters.topologyMutate) == ops, 'operators:' + cfg, 'the mutation operators of the class are as before')
            if o is not None:
                fin = [(p, v) for p, v in f.rec if v - v == 0]
                if fin:
                    best = (min if minimize else max)(v for _, v in fin)
                    ctx.check(res[1] == best and (vec(res[0]), best) in fin, 'diverge best:' + cfg, 'the best finite evaluation is reported', got=[vec(res[0]), res[1]], want=best, seen=f.rec)
                ctx.check(not [1 for p, v in f.rec[:-1] if v - v != 0] or 'emetic' in name, 'diverge stop:' + cfg, 'no evaluation after a non-finite value', seen=f.rec)
            ctx.trans(len(f.rec))
            ctx.trace()
            ctx.state((name, minimize, str(bad), at))


# optimiser: (evaluation limit for the full answer tree, answers)
M3, M2 = (0.0, 1.0, 2.0), (0.0, 1.0)
TREE = {'HillClimber': (5, M3), 'HillClimber:noisy': (7, M3), 'StochasticHillClimber': (4, M3), 'StochasticHillClimber:cold': (4, M3),
        'RandomSearch': (5, M3), 'WeightGuessing': (5, M3), 'WeightMaskGuessing': (5, M3), 'NelderMead:1': (5, M3), 'NelderMead:2': (6, M3),
        'ES:1,2': (6, M3), 'ES:2+2': (6, M3), 'ES:1+2': (7, M2), 'ES:1,2:noisy': (6, M3), 'GA:4': (8, M2), 'GA:3:elite': (6, M3), 'PSO:2': (6, M3), 'PSO:3': (6, M3),
        'MemeticSearch': (5, M3), 'InverseMemeticSearch': (5, M3), 'InnerMemeticSearch': (5, M3), 'InnerInverseMemeticSearch': (5, M3),
        'FiniteDifferences': (6, M3), 'SimpleSPSA': (6, M3), 'PGPE:local': (6, M3), 'PGPE:global': (6, M3),
        'CMAES:1': (8, M2), 'CMAES:2': (6, M3), 'SNES': (6, M3), 'SNES:1': (8, M2), 'XNES': (6, M3), 'XNES:mixing': (7, M2), 'Rank1NES': (5, M3),
        'FEM': (5, M3), 'VanillaNES': (6, M3), 'VanillaNES:mixing': (7, M2), 'VanillaNES:online': (6, M3), 'ExactNES': (6, M3), 'OriginalNES': (6, M3)}


def jobs(tier, seed):
    T = tier != 'quick'
    out = []
    for c in optlib.confs():
        limit, menu = TREE[c.name]
        third = c.name.startswith('Stochastic')
        for minimize in (False, True):
            settle = 'kw' if not minimize else ('late' if len(c.name) % 2 else 'after')
            kinds = ('vec', 'pc') if T else (('vec',) if (len(c.name) + minimize) % 2 else ('pc',))
            for kind in kinds:
                out.append(('answers:%s:min=%s:%s' % (c.name, minimize, kind), answers_job,
                            (c.name, kind, minimize, settle, limit + (1 if T else 0), menu, third)))
            out.append(('limits:%s:min=%s' % (c.name, minimize), limits_job, (c.name, minimize)))
            out.append(('diverge:%s:min=%s' % (c.name, minimize), diverge_job, (c.name, minimize)))
    return out
