"""Tasks on the real code. (1) Scaling: every combination of limits (with unlimited entries) and values inside, on and
outside the limits, clipping on and off: normalisation and de-normalisation are inverse linear maps, clipped at the limits,
and applied on the way to and from the environment exactly when limits are set. (2) Episodic accumulation: every history of
actions with every reward sequence over a menu and resets anywhere, undiscounted and discounted. (3) Evaluation of modules,
agents and other objects: resets, steps, averages for every batch size and every assignment of episode lengths and rewards.
(4) Concrete tasks (cart-pole family, ship steering, minimisation, xor, mountain car, acrobot): every action sequence up to
a depth from start states next to their thresholds, step by step against rewards, observations and end conditions written
from their definitions. The Runge-Kutta helper that newer matplotlib lacks is supplied by the harness."""

import itertools
from math import pi, sin, cos, exp
from numpy import array, asarray, ravel
from mc.choice import explore
from mc import rng
from mc.canon import snap
import matplotlib.mlab as _mlab
from pybrain.rl.environments.environment import Environment
from pybrain.rl.environments.task import Task
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.agents import LearningAgent
from pybrain.structure.modules.module import Module

ASSUMPTIONS = ['the first reward of an episode is discounted once, as implemented',
               'cart-pole environments integrate with a fourth-order Runge-Kutta step supplied by the harness (matplotlib.mlab.rk4 no longer exists)']


def _rk4(derivs, y0, t):
    """the classical method on plain floats, result rows like matplotlib's"""
    f = lambda y: asarray([float(ravel(v)[0]) for v in derivs(y, 0)])
    out = [asarray(y0, float)]
    for i in range(len(t) - 1):
        dt = t[i + 1] - t[i]
        y = out[-1]
        k1 = f(y)
        k2 = f(y + dt / 2. * k1)
        k3 = f(y + dt / 2. * k2)
        k4 = f(y + dt * k3)
        out.append(y + dt / 6. * (k1 + 2 * k2 + 2 * k3 + k4))
    return asarray(out)


if not hasattr(_mlab, 'rk4'):
    _mlab.rk4 = _rk4


def near(a, b, tol=1e-9):
    a, b = ravel(asarray(a, float)), ravel(asarray(b, float))
    return a.shape == b.shape and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------ (1) scaling
class Plain(Environment):
    def __init__(self, sensors):
        self.sensors = sensors
        self.got = []

    def getSensors(self):
        return self.sensors

    def performAction(self, a):
        self.got.append([float(x) for x in a])

    def reset(self):
        pass


LIM = [None, (-3.0, 1.0), (0.0, 0.5), (2.0, 10.0)]


def scaling(ctx, n, fracs):
    for lims in itertools.product(LIM, repeat=n):
        for fr in itertools.product(fracs, repeat=n):
            for clip in (True, False):
                for kind in (list, array):
                    key = '%s:%s:%s:%s' % (lims, fr, clip, kind.__name__)
                    raw = kind([float(l[0] + f * (l[1] - l[0])) if l else f * 7. for l, f in zip(lims, fr)])
                    unit = kind([2. * f - 1. if l else f * 7. for l, f in zip(lims, fr)])
                    b4 = snap([raw, unit])
                    lo = lambda f: min(max(f, 0.), 1.) if clip else f
                    wunit = [2. * lo(f) - 1. if l else f * 7. for l, f in zip(lims, fr)]
                    wraw = [l[0] + lo(f) * (l[1] - l[0]) if l else f * 7. for l, f in zip(lims, fr)]
                    env = Plain(raw)
                    t = Task(env)
                    t.clipping = clip
                    # without limits both directions are the identity
                    t.performAction(unit)
                    ctx.check(near(t.getObservation(), raw) and near(env.got[-1], unit), 'off:' + key, 'no scaling without limits', got=(t.getObservation(), env.got[-1]))
                    t.setScaling(list(lims), None)
                    t.performAction(unit)
                    ctx.check(near(t.getObservation(), wunit) and near(env.got[-1], unit), 'sens:' + key, 'sensor normalisation only', got=t.getObservation(), want=wunit)
                    t.setScaling(None, list(lims))
                    t.performAction(unit)
                    ctx.check(near(t.getObservation(), raw) and near(env.got[-1], wraw), 'act:' + key, 'actuator de-normalisation only', got=env.got[-1], want=wraw)
                    t.setScaling(list(lims), list(lims))
                    t.performAction(t.getObservation())
                    ctx.check(near(env.got[-1], wraw), 'round:' + key, 'normalising and de-normalising is the identity within the limits', got=env.got[-1], want=wraw)
                    ctx.check(snap([raw, unit]) == b4, 'arg:' + key, 'arguments modified')
                    ctx.trans(4)
                    ctx.trace()
                    ctx.state(key)
    # wrong sizes are refused
    t = Task(Plain([0.] * (n + 1)))
    t.setScaling([(0, 1)] * n, [(0, 1)] * n)
    for f in (t.getObservation, lambda: t.performAction([0.] * (n + 1))):
        try:
            f()
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, 'size:%d' % n, 'a wrong number of values is refused')
    ctx.sample(dict(limits=n))


# ------------------------------------------------------------------------------------------ (2) accumulation
class Script(EpisodicTask):
    """rewards and episode lengths from callables"""

    def __init__(self, env, reward, length):
        EpisodicTask.__init__(self, env)
        self._reward, self._length = reward, length
        self.left = None
        self.now = None
        self.ep = []
        self.resets = 0

    def reset(self):
        EpisodicTask.reset(self)
        self.left = self._length()
        self.resets += 1
        self.ep.append([])

    def performAction(self, a):
        self.now = self._reward()
        self.ep[-1].append(self.now)
        self.left -= 1
        EpisodicTask.performAction(self, a)

    def getReward(self):
        return self.now

    def isFinished(self):
        return self.left <= 0


def accumulate(ctx, discount, depth, menu):
    def body(ch):
        env = Plain([0.])
        t = Script(env, lambda: ch.of(menu), lambda: 99)
        t.discount = discount
        t.reset()
        rs = []
        h = []
        for d in range(depth):
            if ch.pick(2):
                t.reset()
                rs = []
                h.append('|')
            else:
                t.performAction([0.])
                rs.append(t.now)
                h.append(t.now)
            w = sum((discount ** (i + 1) if discount else 1.) * r for i, r in enumerate(rs))
            ctx.trans()
            ctx.check(abs(t.getTotalReward() - w) < 1e-9, 'total:%s:%s' % (discount, h), 'cumulative reward', got=t.getTotalReward(), want=w)
            ctx.check(t.samples == len(rs), 'samples:%s:%s' % (discount, h), 'number of steps since the reset', got=t.samples, want=len(rs))
        ctx.trace()
        ctx.state((discount, tuple(h)))
        ctx.outcome(tuple(rs))
    explore(body)


# ------------------------------------------------------------------------------------------ (3) evaluation
class Count(Module):
    n = 0
    resets = 0

    def _forwardImplementation(self, inbuf, outbuf):
        self.n += 1
        outbuf[:] = self.n + inbuf[0] / 8.

    def reset(self):
        Module.reset(self)
        self.n = 0
        self.resets += 1


def evaluate(ctx, what, batch, discount, lens, menu, evals):
    def body(ch):
        env = Plain([1.])
        used = []

        def length():
            n = ch.of(lens)
            used.append(n)
            return n
        t = Script(env, lambda: ch.of(menu), length)
        t.discount = discount
        t.batchSize = batch
        m = Count(1, 1)
        x = m if what == 'module' else LearningAgent(m)
        if what == 'used-module':
            x = m
        m.activate([3.])
        for e in range(evals):
            r0, u0, a0, m0 = t.resets, len(t.ep), len(env.got), m.resets
            got = t.f(x) if e % 2 else t(x)
            eps = t.ep[u0:]
            key = '%s:%d:%s:%s' % (what, batch, discount, t.ep)
            ctx.check(len(eps) == batch, 'trials:' + key, 'one reset and episode per trial', got=len(eps), want=batch)
            ctx.check([len(p) for p in eps] == used[u0:], 'lens:' + key, 'each trial runs until its end condition', got=[len(p) for p in eps], want=used[u0:])
            w = sum(sum((discount ** (i + 1) if discount else 1.) * r for i, r in enumerate(p)) for p in eps) / float(batch)
            ctx.check(abs(got - w) < 1e-9, 'value:' + key, 'average cumulative reward', got=got, want=w)
            ctx.check(m.resets - m0 >= batch, 'reset:' + key, 'module reset before every trial', got=m.resets - m0)
            acts = [[i + 1 + 1. / 8] for p in eps for i in range(len(p))]
            ctx.check(near(env.got[a0:], acts) if acts else env.got[a0:] == [], 'actions:' + key, 'actions of a freshly reset module', got=env.got[a0:], want=acts)
            ctx.trans()
        ctx.trace()
        ctx.state((tuple(map(tuple, t.ep))))
        ctx.outcome((got,))
    explore(body)


def refuse(ctx):
    for x in (None, 3, 'x', [1.0], array([1.0]), object()):
        t = Script(Plain([1.]), lambda: 1., lambda: 1)
        try:
            t.f(x)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok and t.resets == 0, 'refuse:%s' % type(x).__name__, 'only modules and agents can be evaluated')
        ctx.trans()
        ctx.trace()
        ctx.state(repr(type(x)))


# ------------------------------------------------------------------------------------------ (4) cart-pole family
def pole_step(st, F, l, mp=0.1, mc=1.0, g=9.81, dt=0.02):
    def d(y):
        th, w, s, v = y
        a = (g * sin(th) * (mc + mp) - (F + mp * l * w ** 2 * sin(th)) * cos(th)) / (4. / 3 * l * (mc + mp) - mp * l * cos(th) ** 2)
        return (w, a, v, (F - mp * l * (a * cos(th) - w ** 2 * sin(th))) / (mc + mp))
    add = lambda y, k, h: [p + h * q for p, q in zip(y, k)]
    k1 = d(st)
    k2 = d(add(st, k1, dt / 2))
    k3 = d(add(st, k2, dt / 2))
    k4 = d(add(st, k3, dt))
    return [p + dt / 6 * (a + 2 * b + 2 * c + e) for p, a, b, c, e in zip(st, k1, k2, k3, k4)]


STARTS = [(-0.2, 0., 0.2, 0.), (0.69, 0.5, 0.0, 0.), (0.02, -1.5, 2.39, 1.0), (0.0, 0.0, 0.01, 0.), (0.06, 0., -0.1, 0.), (-0.69, -0.5, -2.39, -1.0), (1.59, 0.9, 0., 0.),
          (0.1, 0., 0.04, 1.)]


def reward_of(name, angles, s, N, t):
    fallen = max(angles) > 0.7 or s > 2.4
    left = N - t
    if name == 'BalanceTask':
        return 0 if min(angles) < 0.05 and s < 0.05 else -2 * left if fallen else -1
    if name == 'JustBalanceTask':
        return 0 if min(angles) < 0.05 else -2 * left if fallen else -1
    if name == 'EasyBalanceTask':
        return 0 if min(angles) < 0.05 and s < 0.05 else -2 * left if fallen else -s / 2
    if name in ('DiscreteBalanceTask', 'DiscretePOMDPTask'):
        return 1.0 if min(angles) < 0.05 else -1. * left if fallen else 0
    if name == 'DiscreteNoHelpTask':
        return -1. * left if fallen else 0.
    if name == 'DiscreteBalanceTaskRBF' or name == 'DiscreteDoubleBalanceTaskRBF':
        return -1. if max(angles) > 1.6 else 0.


def poles(ctx, name, envname, depth, N):
    from pybrain.rl.environments.cartpole import balancetask as B, CartPoleEnvironment, DoublePoleEnvironment, NonMarkovPoleEnvironment, NonMarkovDoublePoleEnvironment
    envs = dict(CartPole=CartPoleEnvironment, DoublePole=DoublePoleEnvironment, NonMarkovPole=NonMarkovPoleEnvironment, NonMarkovDoublePole=NonMarkovDoublePoleEnvironment)
    double = 'Double' in envname
    disc = name.startswith('Discrete')
    acts = (0, 1, 2) if disc else (-1.0, 0.2, 1.5)
    for st in STARTS:
        for st2 in ((0.0, 0.3), (0.5, -2.)) if double else (None,):
            for seq in itertools.product(acts, repeat=depth):
                key = '%s:%s:%s:%s:%s' % (name, envname, st, st2, seq)
                env = envs[envname]()
                t = getattr(B, name)(env, maxsteps=N)
                t.reset()
                a = list(st)
                b = None
                if double:
                    env.p1.sensors = tuple(st)
                    b = [st2[0], st2[1], st[2], st[3]]
                    env.p2.sensors = tuple(b)
                    env.getSensors()
                else:
                    env.sensors = tuple(st)
                total = 0.
                for k, u in enumerate(seq):
                    if check_pole(ctx, t, name, envname, key, a, b, k, N):
                        break
                    # actions of +-1 stand for +-50 N, clipped
                    F = (u - 1) * 50. if disc else max(-50., min(50., u * 50.))
                    t.performAction(array([u]))
                    a = pole_step(a, F, 0.5)
                    if double:
                        b = pole_step(b, F, 0.05, mp=0.01)
                    ctx.trans()
                    angles = [abs(a[0])] + ([abs(b[0])] if double else [])
                    pos = abs((b if double else a)[2])
                    w = reward_of(name, angles, pos, N, k + 1)
                    r = t.getReward()
                    if not ctx.check(abs(r - w) < 1e-6, 'pole-reward:' + key, 'reward', step=k, got=r, want=w, angles=angles, position=pos):
                        break
                    total += w
                    ctx.check(abs(t.getTotalReward() - total) < 1e-6, 'pole-total:' + key, 'cumulative reward', got=t.getTotalReward(), want=total)
                else:
                    check_pole(ctx, t, name, envname, key, a, b, len(seq), N)
                ctx.trace()
                ctx.state(key)
                ctx.outcome((total, bool(t.isFinished())))
                t.reset()
                ctx.check(t.getTotalReward() == 0 and not t.isFinished(), 'pole-reset:' + key, 'a reset starts a fresh episode')


def check_pole(ctx, t, name, envname, key, a, b, k, N):
    angles = [abs(a[0])] + ([abs(b[0])] if b else [])
    pos = abs((b or a)[2])
    fin = max(angles) > (1.6 if 'RBF' in name else 0.7) or k >= N or ('RBF' not in name and pos > 2.4)
    ctx.check(bool(t.isFinished()) == fin, 'pole-end:' + key, 'end of episode', step=k, got=t.isFinished(), want=fin, angles=angles, position=pos)
    full = dict(CartPole=a, DoublePole=(a[0], a[1]) + tuple(b) if b else None, NonMarkovPole=(a[0], a[2]),
                NonMarkovDoublePole=(a[0], b[0], b[2]) if b else None)[envname]
    if 'RBF' in name:
        n = 4 if b else 2
        vals = (-pi / 4, 0, pi / 4), (1, 0, -1)
        cs = list(itertools.product(*(vals * (n // 2))))
        want = sorted([1.] + [exp(-sum((x - y) ** 2 for x, y in zip(c, full[:n])) / 2.) for c in cs])
        got = sorted(float(x) for x in t.getObservation())
    else:
        got = t.getObservation()
        if name == 'DiscretePOMDPTask':
            want = (a[0], a[2])
        elif name.startswith('Discrete'):
            want = full
        else:
            lims = [3.] + [None if 'NonMarkov' in envname and i % 2 == 0 else pi for i in range(1, len(full))]
            want = [max(-1., min(1., x / l)) if l else x for x, l in zip(full, lims)]
    ctx.check(near(got, want, 1e-7), 'pole-obs:' + key, 'observation', step=k, got=got, want=want)
    ctx.check(len(got) == t.outdim, 'pole-dim:%s:%s' % (name, envname), 'declared size of the observation', got=t.outdim, want=len(got))
    return fin


def linpole(ctx, depth):
    from pybrain.rl.environments.cartpole import CartPoleLinEnvironment, LinearizedBalanceTask
    for st in ((0.1, 0.2, -0.3, 0.5), (0.52, 0.3, 0., 0.), (0., 0., 1.49, 0.9), (-0.52, -0.3, -1.49, -0.9)):
        for seq in itertools.product((-1., 0., 0.5), repeat=depth):
            def body(ch):
                with rng.control(ch, gauss=[0.0]):
                    t = LinearizedBalanceTask(CartPoleLinEnvironment(), maxsteps=depth)
                    t.reset()
                    t.env.sensors = array(st)
                    x = list(st)
                    for k, u in enumerate(seq):
                        fin = abs(x[0]) > pi / 6 or abs(x[2]) > 1.5
                        key = '%s:%s' % (st, seq[:k])
                        ctx.check(bool(t.isFinished()) == fin, 'lin-end:' + key, 'end of episode', got=t.isFinished(), want=fin, state=x)
                        if fin:
                            break
                        F = u * 50.
                        t.performAction(array([u]))
                        tau, nu = 1. / 60, 13.2
                        # x' = x A + F b
                        x = [x[0] + nu * tau * x[1], tau * x[0] + x[1] + F * nu * tau / 9.80665, x[2], tau * x[2] + x[3] + F * tau]
                        ctx.trans()
                        got = ravel(asarray(t.env.getSensors()))
                        if not ctx.check(near(got, x, 1e-7), 'lin-state:' + key, 'state', got=got, want=x):
                            break
                        w = 12. * x[0] ** 2 + 0.25 * x[1] ** 2 + 1.25 * x[2] ** 2 + x[3] ** 2 + 0.01 * F ** 2
                        ctx.check(abs(float(ravel(t.getReward())[0]) - w) < 1e-6, 'lin-reward:' + key, 'reward', got=t.getReward(), want=w)
                    ctx.state((st, seq))
                    ctx.trace()
            explore(body)


# ------------------------------------------------------------------------------------------ ship, minimise
def ship(ctx, depth):
    from pybrain.rl.environments.shipsteer import ShipSteeringEnvironment
    from pybrain.rl.environments.shipsteer.northwardtask import GoNorthwardTask
    for st in ((4.9, 0., 10.), (5.1, 0., 10.), (0., 0., 39.9), (179.5, 3., -9.9), (-179.5, -170., 0.)):
        for seq in itertools.product(((-1., -1.), (1., 1.), (1.5, 0.), (-0.2, 0.3)), repeat=depth):
            def body(ch):
                with rng.control(ch, gauss=[0.0], unit=[0.25]):
                    t = GoNorthwardTask(ShipSteeringEnvironment(render=False), maxsteps=depth)
                    t.reset()
                    ctx.check(near(t.env.getSensors(), [-15., 0., 0.]), 'ship-start', 'start state', got=t.env.getSensors())
                    t.env.sensors = list(st)
                    h, hd, v = st
                    total = 0.
                    for k, (a, b) in enumerate(seq):
                        key = '%s:%s' % (st, seq[:k + 1])
                        ctx.check(not t.isFinished(), 'ship-end:' + key, 'not finished before the last step')
                        ctx.check(near(t.getObservation(), [h / 180., hd / 180., (v + 10.) / 25. - 1.]), 'ship-obs:' + key, 'normalised observation', got=t.getObservation())
                        t.performAction([a, b])
                        th = max(-1., min(2., (a + 1) / 2 * 3 - 1))
                        ru = max(-90., min(90., b * 90.))
                        drag = 5 * h + ru ** 2
                        v = max(-10., min(40., v + 4. * (30. * th - 2. * v - 0.02 * v * drag) / 1000.))
                        last = hd
                        hd = max(-180., min(180., hd - v * (ru + h + hd) / 1000.))
                        h += (hd + last) / 2.
                        h += -360. if h > 180 else 360. if h < -180 else 0.
                        ctx.trans()
                        if not ctx.check(near(t.env.getSensors(), [h, hd, v], 1e-7), 'ship-state:' + key, 'state', got=t.env.getSensors(), want=[h, hd, v]):
                            break
                        w = v * 100. / depth / 40. if abs(h) < 5. else 0.
                        total += w
                        ctx.check(abs(t.getReward() - w) < 1e-9 and abs(t.getTotalReward() - total) < 1e-9, 'ship-reward:' + key, 'reward', got=(t.getReward(), t.getTotalReward()), want=(w, total))
                    else:
                        ctx.check(bool(t.isFinished()), 'ship-over:' + key, 'finished after the maximal number of steps')
                    ctx.state((st, seq))
                    ctx.trace()
            explore(body)


def minimise(ctx, dim, menu, n):
    from pybrain.rl.environments.simple import SimpleEnvironment, MinimizeTask
    from pybrain.rl.experiments import EpisodicExperiment
    from pybrain.rl.agents.agent import Agent

    class A(Agent):
        def __init__(self, pat):
            self.pat, self.i = pat, 0
            self.obs = []

        def integrateObservation(self, o):
            self.obs.append([float(x) for x in o])

        def getAction(self):
            self.i += 1
            return array(self.pat[(self.i - 1) % len(self.pat)])
    for pat in itertools.product(itertools.product(menu, repeat=dim), repeat=n):
        t = MinimizeTask(SimpleEnvironment(dim))
        ag = A(pat)
        for ep in range(2):
            ag.i = 0
            ag.obs = []
            rs = EpisodicExperiment(t, ag).doEpisodes(1)[0]
            x = [2.] * dim
            want, seen = [], []
            for k in range(15):
                seen.append(list(x))
                x = [p + 0.1 * q for p, q in zip(x, pat[k % n])]
                want.append(-sum(p * p for p in x))
            ctx.trans(15)
            ctx.check(near(rs, want), 'min-rewards:%s:%d' % (pat, ep), 'rewards of the 15 steps', got=rs, want=want)
            ctx.check(near(ag.obs, seen), 'min-obs:%s:%d' % (pat, ep), 'observations', got=ag.obs, want=seen)
            ctx.check(abs(t.getTotalReward() - sum(want)) < 1e-6, 'min-total:%s:%d' % (pat, ep), 'cumulative reward is the sum of the rewards', got=t.getTotalReward(), want=sum(want))
        ctx.trace()
        ctx.state(pat)
        ctx.outcome(tuple(want))


# ------------------------------------------------------------------------------------------ classic
def xor(ctx, depth, chain, conj):
    from pybrain.rl.environments.classic.xor import XORTask, XORChainTask
    for seq in itertools.product((0, 1), repeat=depth):
        for cut in (0, 2) if chain else (0,):
            t = XORChainTask() if chain else XORTask()
            t.and_task = conj
            if chain:
                t.reward_cutoff = cut
            s, total = 0, 0
            for k, a in enumerate(seq):
                key = '%s:%s:%s:%s' % (chain, conj, cut, seq[:k + 1])
                o = t.getObservation()
                p, q = s % 2, s // 2 % 2
                if not ctx.check(list(o) == [p, q, 1], 'xor-obs:' + key, 'observation', got=o, want=[p, q, 1]):
                    return
                t.performAction(a)
                good = a == (p & q if conj else p ^ q)
                if chain:
                    w = (1 if s >= cut else -1) if good else -1
                    s = min(s + 1, 3) if good else 0
                else:
                    w = 1 if good else -1
                    s += 1
                total += w
                ctx.trans()
                ctx.check(t.getReward() == w and t.getTotalReward() == total and not t.isFinished(), 'xor-reward:' + key, 'reward', got=(t.getReward(), t.getTotalReward()), want=(w, total))
            ctx.trace()
            ctx.state((chain, conj, cut, seq))
            ctx.outcome(total)


def car(ctx, depth, maxsteps):
    from pybrain.rl.environments.classic.mountaincar import MountainCar
    for st in ((-0.5, 0.), (0.44, 0.02), (-1.39, -0.069), (0.3, 0.0699), (0.38, 0.06)):
        for seq in itertools.product((0, 1, 2), repeat=depth):
            t = MountainCar()
            t.maxSteps = maxsteps
            for ep in range(2):
                t.reset()
                ctx.check(list(t.getObservation()) == [-0.5, 0., 1] and t.getTotalReward() == 0 and not t.isFinished(), 'car-start', 'a reset starts a fresh episode', got=(t.getObservation(), t.getTotalReward()))
                t.state = list(st)
                x, v = st
                done, n, r, total = 0, 0, None, 0
                for k, a in enumerate(seq):
                    key = '%s:%s' % (st, seq[:k + 1])
                    t.performAction(a)
                    if done:
                        done += 1
                    else:
                        n += 1
                        v = max(-0.07, min(0.07, v + 0.001 * (a - 1) - 0.0025 * cos(3 * x)))
                        x += v
                        if x <= -1.4:
                            x, v = -1.4, 0.
                        r = 1 if x >= 0.45 else 0
                        done = 1 if r else 0
                        if n >= maxsteps:
                            done = 5
                        total += r
                    ctx.trans()
                    ok = ctx.check(near(t.getObservation(), [x, 100 * v, 1]), 'car-obs:' + key, 'observation', got=t.getObservation(), want=[x, 100 * v, 1])
                    ok &= ctx.check(t.getReward() == r and t.getTotalReward() == total, 'car-reward:' + key, 'reward', got=(t.getReward(), t.getTotalReward()), want=(r, total))
                    ok &= ctx.check(bool(t.isFinished()) == (done >= 3), 'car-end:' + key, 'end of episode', got=t.isFinished(), want=done >= 3)
                    if not ok:
                        return
            ctx.trace()
            ctx.state((st, seq))
            ctx.outcome((r, done))


def acro_step(a, s):
    """two-link dynamics of the task (unit masses and lengths, g = 9.8), four Euler steps"""
    t1, t2, w1, w2 = s
    tq = a - 1.
    for _ in range(4):
        d1 = 0.25 + 1.25 + cos(t2) + 2
        d2 = 0.25 + 0.5 * cos(t2) + 1
        p2 = 0.5 * 9.8 * cos(t1 + t2 - pi / 2)
        p1 = -0.5 * w2 * sin(t2) * (w2 - 2 * w1) + 1.5 * 9.8 * cos(t1 - pi / 2) + p2
        a2 = (tq + p1 * d2 / d1 - 0.5 * w1 * w1 * sin(t2) - p2) / (1.25 - d2 * d2 / d1)
        a1 = -(d2 * a2 + p1) / d1
        w1 = max(-4 * pi, min(4 * pi, w1 + a1 * 0.05))
        t1 += w1 * 0.05
        w2 = max(-9 * pi, min(9 * pi, w2 + a2 * 0.05))
        t2 += w2 * 0.05
    wrap = lambda x: x + 2 * pi if x < -pi else x - 2 * pi if x > pi else x
    return [wrap(t1), wrap(t2), w1, w2]


def acrobot(ctx, depth, maxsteps, name, target, easy):
    from pybrain.rl.environments.classic import acrobot as M
    fixed = name == 'SingleArmSwinger'
    for st in ([0, 0, 0, 0], [pi - 0.05, 0.1, 1., -2.], [2.0, 0.5, 12., 0.], [-3.1, -3.1, -3., -25.]):
        for seq in itertools.product((0, 1, 2), repeat=depth):
            t = getattr(M, name)()
            t.maxSteps = maxsteps
            t.easy_rewards = easy
            for ep in range(2):
                t.reset()
                s0 = [pi, 0, 0, 0] if fixed else [0, 0, 0, 0]
                want = (s0[2:] if fixed else s0) + [pi]
                ctx.check(near(t.getObservation(), [x / pi for x in want]) and t.getTotalReward() == 0 and not t.isFinished(), 'acro-start:' + name, 'a reset starts a fresh episode', got=(t.getObservation(), t.getTotalReward()))
                s = list(st)
                if fixed:
                    s[0], s[2] = pi, 0
                t.state = list(s)
                done, n, r, total = 0, 0, None, 0
                for k, a in enumerate(seq):
                    key = '%s:%s:%s:%s' % (name, easy, st, seq[:k + 1])
                    t.performAction(a)
                    if done:
                        done += 1
                    else:
                        n += 1
                        s = acro_step(a, s)
                        y = -cos(s[0]) - cos(s[1])
                        hit = y >= target
                        r = (10 * y if hit else y) if easy else (1 if hit else 0)
                        done = 5 if n >= maxsteps else 1 if hit else 0
                        total += r
                        if fixed:
                            s[0], s[2] = pi, 0
                    ctx.trans()
                    want = (s[2:] if fixed else s) + [pi]
                    ok = ctx.check(near(t.getObservation(), [x / pi for x in want], 1e-6), 'acro-obs:' + key, 'observation', got=t.getObservation(), want=[x / pi for x in want])
                    ok &= ctx.check(near([t.getReward(), t.getTotalReward()], [r, total], 1e-6), 'acro-reward:' + key, 'reward', got=(t.getReward(), t.getTotalReward()), want=(r, total))
                    ok &= ctx.check(bool(t.isFinished()) == (done >= 3), 'acro-end:' + key, 'end of episode', got=t.isFinished(), want=done >= 3)
                    if not ok:
                        return
            ctx.trace()
            ctx.state((name, easy, tuple(st), seq))
            ctx.outcome((done, total))


def jobs(tier, seed):
    T = tier == 'thorough'
    out = []
    fr = (-0.5, 0.0, 0.3, 1.0, 1.25)
    out.append(('scaling:1', scaling, (1, fr)))
    out.append(('scaling:2', scaling, (2, fr)))
    if T:
        out.append(('scaling:3', scaling, (3, (-0.5, 0.3, 1.25))))
    for d in (None, 0.5, 0.99, 1.0):
        out.append(('accumulate:%s' % d, accumulate, (d, 7 if T else 5, (1.5, -0.5, 0.0))))
    for what in ('module', 'agent'):
        for batch in (1, 2, 3):
            out.append(('evaluate:%s:%d' % (what, batch), evaluate, (what, batch, None if batch != 2 else 0.5, (1, 2) if T or batch < 3 else (2,), (1.0, -0.75), 2 if batch == 1 or T and batch == 2 else 1)))
    out.append(('refuse', refuse, ()))
    for name in ('BalanceTask', 'JustBalanceTask', 'EasyBalanceTask', 'DiscreteBalanceTask', 'DiscreteNoHelpTask', 'DiscretePOMDPTask', 'DiscreteBalanceTaskRBF'):
        out.append(('pole:%s' % name, poles, (name, 'CartPole', 6 if T else 4, 4)))
    out.append(('pole:nonmarkov', poles, ('BalanceTask', 'NonMarkovPole', 5 if T else 3, 5)))
    out.append(('pole:double', poles, ('BalanceTask', 'DoublePole', 4 if T else 3, 4)))
    out.append(('pole:double:nonmarkov', poles, ('JustBalanceTask', 'NonMarkovDoublePole', 4 if T else 2, 4)))
    out.append(('pole:double:rbf', poles, ('DiscreteDoubleBalanceTaskRBF', 'DoublePole', 3 if T else 2, 4)))
    out.append(('linpole', linpole, (5 if T else 4,)))
    out.append(('ship', ship, (4 if T else 3,)))
    out.append(('minimise:1', minimise, (1, (-2.0, 0.5, 3.0), 3 if T else 2)))
    out.append(('minimise:2', minimise, (2, (-1.0, 2.0), 2)))
    for chain in (False, True):
        for conj in (False, True):
            out.append(('xor:%s:%s' % (chain, conj), xor, (11 if T else 8, chain, conj)))
    out.append(('car', car, (8 if T else 6, 5)))
    for name, target in (('AcrobotTask', 1.5), ('SimpleAcrobot', -0.5), ('VerySimpleAcrobot', -1.), ('SingleArmSwinger', 1.95)):
        for easy in (False, True):
            out.append(('acrobot:%s:%s' % (name, easy), acrobot, (6 if T else 4, 4, name, target, easy)))
    return out
