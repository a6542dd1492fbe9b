"""Explorers on the real code with every random draw under control. Epsilon-greedy: every (epsilon, decay, actions,
greedy action), draws just below / on / above epsilon and every random action; Boltzmann and the index-drawing helpers: every
probability or value vector over a menu, draws just inside both ends of every index's share of the unit interval; Gaussian
and state-dependent explorers: every sign pattern of the noise; the temporal behaviour (decay per activation, exploration
matrix or explored table fixed within an episode and redrawn at its start) over every history of activations and episode
starts; learning agents with exploration switched on and off."""

import itertools
from math import exp, log
from numpy import array, zeros, dot
from mc.choice import explore
from mc import rng
from mc.canon import snap
from pybrain.rl.explorers import EpsilonGreedyExplorer, BoltzmannExplorer, DiscreteStateDependentExplorer, NormalExplorer
from pybrain.rl.explorers.continuous.sde import StateDependentExplorer
from pybrain.rl.learners.valuebased.interface import ActionValueTable
from pybrain.rl.learners import Q, SARSA
from pybrain.rl.agents import LearningAgent
from pybrain.utilities import drawIndex, drawGibbs, r_argmax

ASSUMPTIONS = ['random indices are drawn through the standard generators (random, numpy.random), whose draws the harness decides',
               'when the accumulated probabilities fall short of the draw through rounding any index is allowed']
E = 1e-9


def near(a, b, tol=1e-9):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def table(na, best):
    t = ActionValueTable(1, na)
    for a in range(na):
        t.updateValue(0, a, 1.0 if a == best else -0.5 * a)
    return t


# ------------------------------------------------------------------------------------------ epsilon-greedy
def egreedy(ctx, na, n):
    for eps, decay, best in itertools.product((0.0, 0.3, 0.5, 1.0), (1.0, 0.5), range(na)):
        seen = set()

        def body(ch):
            e = EpsilonGreedyExplorer(eps, decay)
            e.module = table(na, best)
            cur = eps
            h = []
            for t in range(n):
                menu = sorted(set(x for x in (0.0, cur - E, cur, cur + E, 0.999999) if 0 <= x < 1))
                u = menu[ch.pick(len(menu))]
                first = [u]
                with rng.control(ch, unit=lambda: first.pop() if first else 0.5) as c:
                    got = e.activate(array([0.]), array([float(best)]))
                h.append(u)
                key = 'eg:%s:%s:%d:%d:%s' % (eps, decay, na, best, h)
                ctx.trans()
                ctx.check(len(got) == 1 and got[0] in range(na), 'range:' + key, 'an available action', got=got)
                if u >= cur:
                    ctx.check(got[0] == best, 'greedy:' + key, 'draw not below epsilon: greedy action', got=got, epsilon=cur)
                else:
                    seen.add((t, int(got[0])))
                cur *= decay
                ctx.check(abs(e.epsilon - cur) < 1e-12, 'decay:' + key, 'epsilon decays once per activation', got=e.epsilon, want=cur)
            ctx.trace()
            ctx.state((eps, decay, best, tuple(h)))
            ctx.outcome((eps, tuple(h)))
        explore(body)
        if eps:
            ctx.check(seen == set((t, a) for t in range(n) for a in range(na)), 'reach:%s:%d' % (eps, na), 'exploration reaches every action', got=sorted(seen))
        else:
            ctx.check(not seen, 'never:%d' % na, 'no exploration with epsilon 0')


# ------------------------------------------------------------------------------------------ indices
def shares(ps):
    out = []
    s = 0.
    for p in ps:
        out.append((s, s + p))
        s += p
    return out


def pick_all(ctx, key, ps, call):
    """call(draw) must return index i exactly for the draws within its share"""
    sh = shares(ps)
    for i, (lo, hi) in enumerate(sh):
        if hi - lo < 1e-7:
            continue
        for u in (lo + 1e-8, (lo + hi) / 2, hi - 1e-8):
            if not 0 <= u < 1:
                continue

            def body(ch):
                first = [u]
                with rng.control(ch, unit=lambda: first.pop() if first else 0.5):
                    got = call()
                ctx.trans()
                ctx.check(got == i, 'share:%s:%d' % (key, i), 'the draw falls into the share of this index', draw=u, shares=sh, got=got)
            explore(body)
        ctx.state((key, i))
    ctx.trace()


def index(ctx, n, step):
    k = int(round(1 / step))
    for parts in itertools.product(range(k + 1), repeat=n):
        if sum(parts) == k:
            for kind in (array, list, tuple):
                ps = kind([float(x) / k for x in parts])
                before = snap(ps)
                pick_all(ctx, 'draw:%s:%s' % (parts, kind.__name__), list(ps), lambda: drawIndex(ps))
                pick_all(ctx, 'drawt:%s:%s' % (parts, kind.__name__), list(ps), lambda: drawIndex(ps, True))
                ctx.check(snap(ps) == before, 'arg:%s' % (parts,), 'argument modified')
            ctx.outcome(parts)
        elif sum(parts):
            for kind in (array, list):
                w = kind([float(x) for x in parts])
                if sum(parts) == 1:
                    continue
                before = snap(w)
                pick_all(ctx, 'norm:%s' % (parts,), [x / float(sum(parts)) for x in parts], lambda: drawIndex(w, tolerant=True))
                ctx.check(snap(w) == before, 'argn:%s' % (parts,), 'argument modified')
                try:
                    drawIndex(w)
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, 'refuse:%s' % (parts,), 'a vector that is no distribution is refused unless tolerant')
            # integer weights
            wi = array(parts)
            pick_all(ctx, 'normi:%s' % (parts,), [x / float(sum(parts)) for x in parts], lambda: drawIndex(wi, tolerant=True))


def gibbs_probs(vals, tau):
    z = [(v - max(vals)) / tau for v in vals]
    z = [exp(max(x, -40.)) for x in z]
    return [x / sum(z) for x in z]


def gibbs(ctx, n, menu):
    for vals in itertools.product(menu, repeat=n):
        v = array(vals)
        for tau in (0.25, 1.0, 8.0):
            pick_all(ctx, 'gibbs:%s:%s' % (vals, tau), gibbs_probs(vals, tau), lambda: drawGibbs(v, tau))
        ctx.check(list(v) == list(vals), 'gibbs-arg:%s' % (vals,), 'argument modified', got=v)
        best = set(i for i in range(n) if vals[i] == max(vals))
        got = set()

        def body(ch):
            with rng.control(ch, unit=[0.0, 0.3, 0.6, 0.99]):
                got.add((drawGibbs(v, 0), r_argmax(v)))
            ctx.trans()
        explore(body)
        ctx.check(set(a for a, _ in got) == best == set(b for _, b in got), 'ties:%s' % (vals,), 'temperature 0 and r_argmax: each maximal index and no other', got=sorted(got))
        ctx.outcome(vals)


def boltzmann(ctx, na, n):
    for vals in itertools.product((-1.0, 0.0, 2.0), repeat=na):
        for tau, decay in ((2.0, 0.5), (0.5, 1.0)):
            # every activation: each action's share, decayed temperature
            for pre in range(n):
                t = ActionValueTable(2, na)
                for a in range(na):
                    t.updateValue(0, a, 7.0 * a)
                    t.updateValue(1, a, vals[a])
                e = BoltzmannExplorer(tau, decay)
                e.module = t

                def call():
                    e.tau = tau
                    for _ in range(pre):
                        e.activate(array([1.]), array([0.]))
                    first.append(u0[0])
                    r = e.activate(array([1.]), array([0.]))
                    return int(r[0]) if len(r) == 1 else None
                cur = tau * decay ** pre
                ps = gibbs_probs(vals, cur)
                for i, (lo, hi) in enumerate(shares(ps)):
                    if hi - lo < 1e-7:
                        continue
                    for u in (lo + 1e-8, hi - 1e-8):
                        if not 0 <= u < 1:
                            continue
                        u0 = [u]
                        first = []

                        def body(ch):
                            with rng.control(ch, unit=lambda: first.pop() if first else 0.5):
                                got = call()
                            ctx.trans()
                            ctx.check(got == i, 'boltz:%s:%s:%s:%d' % (vals, tau, decay, pre), 'action drawn with its Boltzmann share', draw=u, probs=ps, got=got, want=i)
                            ctx.check(abs(e.tau - cur * decay) < 1e-12, 'tau:%s:%s' % (tau, decay), 'temperature decays once per activation', got=e.tau, want=cur * decay)
                        explore(body)
                ctx.trace()
                ctx.state((vals, tau, decay, pre))


# ------------------------------------------------------------------------------------------ continuous
def expln(x):
    return exp(x) if x < 0 else log(x + 1) + 1


NOISE = [-1.5, 0.0, 2.0]


def normal(ctx, dim):
    for sig in itertools.product((-2.0, 0.0, 1.5), repeat=dim):
        e = NormalExplorer(dim, 0.)
        e.sigma = list(sig)
        ctx.check(near(e.sigma, sig), 'sigma:%s' % (sig,), 'sigma is stored', got=e.sigma)
        ctx.check(near(NormalExplorer(dim, sig[0]).sigma, [sig[0]] * dim), 'sigma0:%s' % (sig,), 'sigma of the constructor')
        act = array([0.5 - j for j in range(dim)])

        def body(ch):
            with rng.control(ch, gauss=NOISE) as c:
                c.log[:] = []
                got = e.activate(array([9.]), act)
                z = [x[1] for x in c.log if x[0] == 'g']
            ctx.trans()
            ctx.check(len(z) == dim and near(got, [a + expln(s) * v for a, s, v in zip(act, sig, z)]), 'normal:%s' % (sig,), 'action plus scaled noise', got=got, noise=z)
            ctx.check(near(e.sigma, sig) and near(act, [0.5 - j for j in range(dim)]), 'normal-keeps:%s' % (sig,), 'exploring keeps sigma and the given action')
            ctx.outcome(snap(got))
        explore(body)
        ctx.trace()
        ctx.state(sig)


def sde(ctx, sd, ad, n):
    states = [array(s) for s in itertools.product((0.0, 1.0, -2.0), repeat=sd)]

    def body(ch):
        with rng.control(ch, gauss=[1.0, -0.5]):
            e = StateDependentExplorer(sd, ad, sigma=-1.)
            hist = []
            mats = []
            for t in range(n):
                op = ch.pick(2)
                hist.append('ep' if op else 'act')
                if op:
                    e.newEpisode()
                m = array([e.activate(row, zeros(ad)) for row in [array([1. if i == j else 0. for j in range(sd)]) for i in range(sd)]])
                if not op and mats:
                    ctx.check(near(m.ravel(), mats[-1].ravel()), 'sde-fixed:%s' % hist, 'perturbation is fixed within an episode', got=m, before=mats[-1])
                mats.append(m)
                ctx.check(all(abs(abs(x) - exp(-1.) * f) < 1e-9 for x in m.ravel() for f in ((1.0,) if x > 0 else (0.5,))), 'sde-scale:%s' % hist, 'noise scaled by the exploration parameter', got=m)
                for s in states:
                    a = array([0.25 + j for j in range(ad)])
                    ctx.check(near(e.activate(s, a), a + dot(s, m)), 'sde:%s:%s' % (hist, list(s)), 'action plus a linear function of the state', got=e.activate(s, a), want=a + dot(s, m))
                    ctx.trans()
        ctx.trace()
        ctx.state((tuple(hist), snap(mats)))
    explore(body)


def discrete_sde(ctx, na, n):
    def body(ch):
        t = ActionValueTable(2, na)
        for i in range(2 * na):
            t.updateValue(i // na, i % na, 0.001 * ((3 * i) % 5))
        vals = snap(t.params)
        e = DiscreteStateDependentExplorer()
        e.module = t
        hist = []
        with rng.control(ch, unit=[0.5], gauss=[1.0, -1.0]):
            cur = None
            for k in range(n):
                new = ch.pick(2)
                hist.append('ep' if new else 'act')
                if new:
                    e.newEpisode()
                got = tuple(int(e.activate(array([float(s)]), array([0.]))[0]) for s in (0, 1))
                ctx.trans()
                if k == 0 and not new:
                    ctx.check(got == tuple(int(t.getMaxAction(s)) for s in (0, 1)), 'dsde-greedy', 'before the first episode the table itself is used', got=got)
                if not new and cur is not None:
                    ctx.check(got == cur, 'dsde-fixed:%s' % hist, 'the explored policy is fixed within an episode', got=got, before=cur)
                cur = got
                ctx.check(all(a in range(na) for a in got), 'dsde-range:%s' % hist, 'available actions', got=got)
                ctx.check(snap(t.params) == vals, 'dsde-values:%s' % hist, 'exploration changed the action values')
        ctx.trace()
        ctx.outcome((tuple(hist), cur))
        ctx.state((tuple(hist), cur))
    explore(body)

    # the occasional uniform action
    seen = set()

    def rare(ch):
        e = DiscreteStateDependentExplorer()
        e.module = table(na, 0)
        first = [ch.of((0.0, 0.0009, 0.0011, 0.9))]
        u = first[0]
        with rng.control(ch, unit=lambda: first.pop() if first else 0.5):
            got = e.activate(array([0.]), array([0.]))
        if u < 0.001:
            seen.add(int(got[0]))
        else:
            ctx.check(got[0] == 0, 'dsde-rare:%s' % u, 'the explored policy is followed', got=got)
    explore(rare)
    ctx.check(seen == set(range(na)), 'dsde-uniform', 'the uniform action reaches every action', got=sorted(seen))


# ------------------------------------------------------------------------------------------ agents
def agents(ctx, na, n):
    for L, ex in itertools.product((Q, SARSA), ('default', 'boltz', 'none')):
        def body(ch):
            t = ActionValueTable(2, na)
            for a in range(na):
                t.updateValue(0, a, 1.0 if a == 0 else -a)
                t.updateValue(1, a, 1.0 if a == na - 1 else -1. - a)
            ln = L()
            if ex == 'boltz':
                ln.explorer = BoltzmannExplorer(1e6, 1.0)
            ag = LearningAgent(t, ln)
            if ex == 'none':
                ln.explorer = None
            elif ex == 'default':
                ln.explorer.epsilon = 1.0
            h = []
            for k in range(n):
                ag.learning = bool(ch.pick(2))
                s = ch.pick(2)
                before = ln.explorer.epsilon if ex == 'default' else None
                ag.integrateObservation(array([float(s)]))
                with rng.control(ch, unit=[(2 * i + 1.) / (2 * na) for i in range(na)] if ag.learning else [0.5]):
                    a = ag.getAction()
                greedy = 0 if s == 0 else na - 1
                h.append((ag.learning, s, int(a[0])))
                ctx.trans()
                if not ag.learning or ex == 'none':
                    ctx.check(list(a) == [greedy], 'agent-greedy:%s:%s' % (ex, h), 'greedy action while exploration is off', got=a, want=greedy)
                    if ex == 'default':
                        ctx.check(ln.explorer.epsilon == before, 'agent-decay:%s' % h, 'no decay while exploration is off')
                else:
                    seen.add((s, int(a[0])))
                    ctx.check(a[0] in range(na), 'agent-range:%s:%s' % (ex, h), 'available action', got=a)
                ag.giveReward(0.5)
            ctx.trace()
            ctx.state((L.__name__, ex, tuple(h)))
        seen = set()
        explore(body)
        if ex != 'none':
            ctx.check(seen == set((s, a) for s in (0, 1) for a in range(na)), 'agent-reach:%s' % ex, 'exploration reaches every action', got=sorted(seen))
        ctx.outcome((L.__name__, ex, len(seen)))


def jobs(tier, seed):
    T = tier == 'thorough'
    out = []
    for na in (2, 3) + ((4,) if T else ()):
        out.append(('egreedy:%d' % na, egreedy, (na, 3 if T or na == 2 else 2)))
    for n, step in ((2, 0.125), (3, 0.25)) + (((4, 0.25), (3, 0.125)) if T else ()):
        out.append(('index:%d:%s' % (n, step), index, (n, step)))
    for n, menu in ((1, (0., 1.)), (2, (-3., 0., 0.5, 100.)), (3, (-1., 0., 2.))) + (((4, (-1., 0., 2.)),) if T else ()):
        out.append(('gibbs:%d' % n, gibbs, (n, menu)))
    for na in (2, 3):
        out.append(('boltzmann:%d' % na, boltzmann, (na, 3)))
    for d in (1, 2) + ((3,) if T else ()):
        out.append(('normal:%d' % d, normal, (d,)))
    for sd, ad in ((1, 1), (2, 1), (1, 2)):
        out.append(('sde:%d:%d' % (sd, ad), sde, (sd, ad, 4 if T and sd * ad < 2 else 2)))
    out.append(('dsde:2', discrete_sde, (2, 3 if T else 2)))
    out.append(('agents:2', agents, (2, 3)))
    out.append(('agents:3', agents, (3, 3 if T else 2)))
    return out
