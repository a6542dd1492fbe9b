"""Every history of states, exploration draws, rewards and episode boundaries through a learning agent with a policy gradient learner:
each stored likelihood derivative against the density it comes from, the estimated gradient against its textbook definition, the parameters
after each learning step; reward-weighted regression under every action sequence of small tasks; universal search over every
small program table."""

import contextlib, io, itertools, math
import numpy as np
from numpy import array
from mc import rng
from mc.choice import explore
from pybrain.rl.agents import LearningAgent
from pybrain.rl.learners import Reinforce, ENAC
from pybrain.rl.learners.directsearch.rwr import RWR
from pybrain.rl.learners.meta.levinsearch import LevinSeach
from pybrain.rl.environments.mazes.tasks.pomdp import POMDPTask
from pybrain.rl.explorers.continuous import NormalExplorer
from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
from pybrain.structure import SoftmaxLayer, LinearLayer, TanhLayer
from pybrain.tools.shortcuts import buildNetwork

ASSUMPTIONS = ['the derivatives are those of the log density scaled by the variance of the action (the documented auto-alpha)',
               'learning and logging stay switched on for the whole history, and the last episode is not empty',
               'policies are feed-forward networks', 'GPOMDP is marked as not working by its author', 'values compared up to 1e-5 (numerical derivatives) or 1e-7']


def expln(x):
    return math.exp(x) if x < 0 else math.log(x + 1.) + 1.


def explnp(x):
    return math.exp(x) if x < 0 else 1. / (x + 1.)


def net(kind):
    if kind == 'linear':
        n = buildNetwork(1, 1, bias=False)
    elif kind == 'bias':
        n = buildNetwork(1, 2, bias=True)
    elif kind == 'hidden':
        n = buildNetwork(1, 1, 1, bias=False, hiddenclass=TanhLayer)
    else:
        n = buildNetwork(2, 2, bias=False)
    n.params[:] = [0.3 + 0.25 * i * (-1) ** i for i in range(n.paramdim)]
    return n


def jacobian(n, obs):
    """Numerical derivatives of the outputs by the parameters, shape (outdim, paramdim)."""
    keep = n.params.copy()
    J = []
    for i in range(n.paramdim):
        side = []
        for h in (1e-5, -1e-5):
            n.params[:] = keep
            n.params[i] += h
            side.append(array(n.activate(obs)))
        J.append((side[0] - side[1]) / 2e-5)
    n.params[:] = keep
    return array(J).T


def episodes(steps):
    """All ways to cut a number of steps into episodes."""
    for cuts in itertools.product((False, True), repeat=steps - 1):
        yield (True,) + cuts


class Model(object):
    """The textbook: rows of derivatives and rewards by episode."""

    def __init__(self, module, sigma, sde):
        self.module, self.sigma, self.sde = module, list(sigma), sde
        self.eps = []

    def row(self, obs, act):
        mu = array(self.module.activate(obs))
        d = act - mu
        g = jacobian(self.module, obs).T.dot(d)
        scale = float(np.dot(obs, obs)) if self.sde else 1.
        s = []
        for j, p in enumerate(self.sigma):
            v = scale * expln(p) ** 2
            s.append((d[j] ** 2 - v) / v * scale * expln(p) * explnp(p) if v else 0.)
        return np.concatenate([g, s])

    def gradient(self, kind):
        L = array([sum(r for r, _ in e) for e in self.eps])
        R = array([sum(w for _, w in e) for e in self.eps])
        if kind is Reinforce:
            out = []
            for k in range(L.shape[1]):
                den = (L[:, k] ** 2).mean()
                b = (L[:, k] ** 2 * R).mean() / den if den else 0.
                out.append((L[:, k] * (R - b)).mean())
            return array(out)
        X = np.hstack([L, np.ones((len(L), 1))])
        return np.linalg.lstsq(X, R, rcond=1e-10)[0][:-1], X, R


def learning(ctx, kind, netkind, sde, steps, states, draws, rewards, rounds, big):
    sigmas = ([-1., 0.5] if netkind in ('bias', 'wide') else [-1.]) if not big else [3.]
    def run(ch):
        ctx.trans()
        n = net(netkind)
        learner = kind()
        agent = LearningAgent(n, learner)
        if sde:
            learner.explorer = StateDependentExplorer(n.indim, n.outdim)
        learner.explorer.sigma = sigmas
        learner.learningRate = 0.01
        log = []
        for rd in range(rounds):
            model = Model(n, learner.explorer.sigma, sde)
            cut = ch.of(list(episodes(steps)))
            for start in cut:
                if start:
                    model.eps.append([])
                    with rng.control(ch, gauss=draws):
                        agent.newEpisode()
                obs = array(ch.of(states))
                agent.integrateObservation(obs)
                with rng.control(ch, gauss=draws):
                    ok, act = ctx.guard('explore-crash', agent.getAction)
                if not ok:
                    return
                act = array(act)
                w = ch.of(rewards) * (5e4 if big else 1.)
                agent.giveReward(w)
                log.append((start, tuple(obs), tuple(act), w))
                # the buffers of the policy are those of its last activation
                row = model.row(obs, act)
                model.eps[-1].append((row, w))
                got = learner.loglh['loglh'][-1]
                ctx.check(len(learner.loglh['loglh']) == sum(map(len, model.eps)), 'rows', 'not one derivative per action', log=log)
                ctx.check(got.shape == row.shape and abs(got - row).max() < 1e-5, 'loglh', 'wrong likelihood derivative of an action', kind=netkind, sde=sde, log=log, got=got.tolist(),
                          want=row.tolist())
            before = np.concatenate([n.params, learner.explorer.params])
            if rd == 0 and rounds > 1 and ch.pick(2):
                # somebody else changes the policy before the learning step
                n.params[:] += 0.125
                before = np.concatenate([n.params, learner.explorer.params])
                log.append('changed')
            with contextlib.redirect_stdout(io.StringIO()):
                ok, g = ctx.guard('gradient-crash', learner.calculateGradient)
            if not ok:
                return
            g = array(g, float).flatten()
            if kind is Reinforce:
                want = model.gradient(kind)
                good = abs(g - want).max() < 1e-4 * max(1., abs(want).max())
            else:
                want, X, R = model.gradient(kind)
                s = np.linalg.svd(X, compute_uv=False)
                if any(1e-12 < x < 1e-2 for x in s):
                    good = True         # too badly conditioned to compare numerical derivatives
                    ctx.note('ill-conditioned regressions')
                else:
                    good = abs(g - want).max() < 1e-3 * max(1., abs(want).max())
            ctx.check(good, 'gradient', 'the gradient differs from its definition', learner=kind.__name__, kind=netkind, log=log, got=g.tolist(), want=want.tolist())
            with contextlib.redirect_stdout(io.StringIO()):
                ok, _ = ctx.guard('learn-crash', agent.learn)
            if not ok:
                return
            m = abs(g).max()
            step = 0.01 * g * (1000. / m if m > 1000. else 1.)
            now = np.concatenate([n.params, learner.explorer.params])
            ctx.check(abs(now - before - step).max() < 1e-7 * max(1., abs(step).max()), 'step', 'the learning step is not along the gradient', learner=kind.__name__, log=log,
                      got=(now - before).tolist(), want=step.tolist())
            agent.reset()
            ctx.check(len(learner.loglh['loglh']) == 0 and len(agent.history) == 0, 'reset', 'a reset leaves experience behind', log=log)
        ctx.state(tuple(log))
        ctx.outcome(tuple(np.sign(now - before)))
        ctx.trace()
    explore(run)


class Walk(POMDPTask):
    """Three-step task with two actions; the reward depends on the step and the action."""
    actions = observations = 2
    maxSteps = 3

    def __init__(self, table, low, discount, length):
        self.table, self.minReward, self.discount, self.maxSteps = table, low, discount, length
        self.reset()

    def reset(self):
        self.steps, self.last = 0, 0
        self.cumreward = self.samples = 0

    def getObservation(self):
        return array([1., 0.5 * self.steps])

    def performAction(self, a):
        self.last = int(a)
        self.steps += 1

    def getReward(self):
        return self.table[(self.steps - 1) % len(self.table)][self.last]


def rwr(ctx, batch, length, batches):
    for table, low, disc in itertools.product([[(0., 1.)], [(0., 0.)], [(-1., 2.), (1., 0.)]], (0, -1), (None, 0.5)):
        if low == 0 and table[0][0] < 0:
            continue
        def run(ch):
            ctx.trans()
            task = Walk(table, low, disc, length)
            n = buildNetwork(2, 2, outclass=SoftmaxLayer, recurrent=True)
            n.params[:] = 0.
            ok, r = ctx.guard('rwr-crash', RWR, n, task, batchSize=batch, greedyRuns=2, verbose=False)
            if not ok:
                return
            r.bp.trainUntilConvergence = lambda **kw: ([], [])
            tau = 1.
            with contextlib.redirect_stdout(io.StringIO()):
                for b in range(batches):
                    picks = []
                    import pybrain.rl.learners.directsearch.rwr as M
                    orig = M.drawIndex
                    M.drawIndex = lambda p, *a, **k: (picks.append(ch.pick(2)), picks[-1])[1]
                    try:
                        ok, _ = ctx.guard('rwr-learn-crash', r.learn, 1)
                    finally:
                        M.drawIndex = orig
                    if not ok:
                        return
                    want, R0 = [], []
                    for e in range(batch):
                        acts = picks[e * length:(e + 1) * length]
                        rew = [table[i % len(table)][a] for i, a in enumerate(acts)]
                        R0.append(sum(w * (disc or 1.) ** i for i, w in enumerate(rew)))
                    shaped = [math.exp(tau * x) for x in R0]
                    imp = [s / max(shaped) for s in shaped]
                    for e in range(batch):
                        acts = picks[e * length:(e + 1) * length]
                        want.append([([1., 0.5 * i], [float(a == 0), float(a == 1)], [imp[e]] * 2) for i, a in enumerate(acts)])
                    got = [[tuple([float(x) for x in f] for f in s) for s in seq] for seq in r.weightedDs]
                    same = len(got) == len(want) and all(len(g) == len(w) and all(all(abs(p - q) < 1e-9 for f, k in zip(x, y) for p, q in zip(f, k)) for x, y in zip(g, w))
                                                         for g, w in zip(got, want))
                    ctx.check(same, 'rwr-weights', 'the weighted samples differ from the reward-weighted experience', table=table, disc=disc, picks=picks, got=got, want=want, batch=b)
                    gain = sum((x - low) * s for x, s in zip(R0, shaped))
                    tau = sum(shaped) / gain if gain > 0 else tau
                    ctx.check(abs(r.tau - tau) <= 1e-9 * tau, 'rwr-tau', 'wrong temperature', table=table, low=low, picks=picks, got=r.tau, want=tau)
                    ctx.check(r.totalSteps == (b + 1) * batch * length and r.totalEpisodes == (b + 1) * batch, 'rwr-count', 'wrong numbers of steps or episodes',
                              got=(r.totalSteps, r.totalEpisodes))
                    ctx.check(abs(r.initr0Avg[-1] - sum(R0) / batch) < 1e-9 and abs(r.lengthAvg[-1] - length) < 1e-9, 'rwr-average', 'wrong averages', got=(r.initr0Avg, r.lengthAvg))
                    ctx.state((tuple(table), low, disc, b, tuple(picks)))
            ctx.trace()
        explore(run)


class Program(object):
    def __init__(self, name, result, log):
        self.name, self.result, self.log = name, result, log

    def run(self, inp):
        self.log.append(self.name)
        if len(self.log) > 500:
            raise OverflowError('search does not end')
        return self.result


class Generator(object):
    def __init__(self, progs):
        self.progs = progs

    def orderedEnumeration(self):
        return iter(self.progs)


def levin(ctx, n, top):
    for cs in itertools.combinations_with_replacement(range(top + 1), n):
        for good in itertools.product((False, True), repeat=n):
            if not any(good):
                continue
            ctx.trans()
            log = []
            ok, res = ctx.guard('levin-crash', LevinSeach().run, None, Generator([(c, Program(i, g, log)) for i, (c, g) in enumerate(zip(cs, good))]))
            if ok:
                best = min(c for c, g in zip(cs, good) if g)
                ctx.check(res is True and cs[log[-1]] == best and good[log[-1]], 'levin', 'not the simplest program is found', complexities=cs, good=good, log=log)
                ctx.check(all(good[i] is False for i in log[:-1]), 'levin-stop', 'the search goes on after a solution', complexities=cs, good=good, log=log)
            ctx.state((cs, good))
            ctx.trace()


def jobs(tier, seed):
    q = tier == 'quick'
    dr = (-1., 0.5)
    st1, st2 = [(0.,), (2.,)], [(1., 0.), (-1., 0.5)]
    out = []
    for kind in (Reinforce, ENAC):
        k = kind.__name__
        out += [(k + '-linear', learning, (kind, 'linear', False, 3 if q else 4, st1, dr, (0., 1.), 1, False)),
                (k + '-rounds', learning, (kind, 'linear', False, 2, [(1.,)] if q else [(1.,), (2.,)], dr, (-1., 2.), 1 if q and kind is ENAC else 2, False)),
                (k + '-sde', learning, (kind, 'linear', True, 3, st1, dr, (0., 1.), 1, False)),
                (k + '-bias', learning, (kind, 'bias', False, 2, [(0.,), (-1.5,)], dr, (0., 1.) if q else (-1., 0., 2.), 1, False)),
                (k + '-hidden', learning, (kind, 'hidden', False, 2, [(1.,), (-0.5,)], (-1., 0., 1.5), (0., 1.), 1, False)),
                (k + '-sde-wide', learning, (kind, 'wide', True, 2, st2, dr, (1.,) if q else (0., 1.), 1, False)),
                (k + '-large', learning, (kind, 'linear', False, 2, [(1.,)], (-1., 0.5, 2.), (-1., 1.), 1, True))]
    out += [('rwr', rwr, (2, 3, 1)), ('rwr-batches', rwr, (2, 1, 3) if q else (2, 2, 3)), ('levin', levin, (3, 3) if q else (4, 4))]
    return out
