"""Value-based learners on the real code against independently written update rules. (1) Q, SARSA and Q(lambda): every
history of up to N samples over 2-3 states and 2 actions with every partition into episodes, learnt in batch mode and,
where supported, sample by sample; the whole table is compared. (2) Greedy modules: every value table over a small
menu, every tie-break draw. (3) Neural fitted Q: every short history; the network must end where resilient propagation
on the reference targets ends. (4) Linear-function-approximation learners: every transition sequence over a menu of
feature vectors (zero and non-zero), actions and rewards, episode starts at every place, weights compared after every
step. (5) The linear agent, online and in batch mode: every stream of observations, rewards and episode starts."""

import itertools
from numpy import array, zeros, exp, outer, ravel, dot, asarray, r_
from numpy.linalg import pinv
from mc.choice import explore
from mc import rng
from mc.canon import snap
from pybrain.datasets import ReinforcementDataSet, SupervisedDataSet
from pybrain.rl.learners import Q, SARSA, QLambda, NFQ
from pybrain.rl.learners.valuebased import linearfa as L
from pybrain.rl.learners.valuebased.interface import ActionValueTable, ActionValueNetwork
from pybrain.rl.agents.linearfa import LinearFA_Agent
from pybrain.supervised.trainers import RPropMinusTrainer

ASSUMPTIONS = ['the last reward of an episode is not used by the tabular learners (no successor is recorded), as implemented',
               'LinearFA_Agent treats the first observation of an episode as successor of the last one before it']

RW = [0.75, -1.25, 2.5, 0.3, -0.6]


def close(a, b, tol=1e-9):
    a, b = ravel(asarray(a, float)), ravel(asarray(b, float))
    return a.shape == b.shape and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def partitions(n):
    """every way of cutting n samples into consecutive non-empty episodes"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, cur = [], [0]
        for i, c in enumerate(cuts):
            if c:
                out.append(cur)
                cur = []
            cur.append(i + 1)
        out.append(cur)
        yield out


# ------------------------------------------------------------------------------------------ (1) tabular
def ref_learn(kind, q, eps, alpha, gamma, lam, online=False):
    """q: dict (s, a) -> value; eps: list of lists of (s, a, r)"""
    acts = sorted(set(a for _, a in q))
    for e in eps:
        trans = [(e[i], e[i + 1]) for i in range(len(e) - 1)]
        if kind == 'QLambda':
            w = 1.
            for (s, a, r), (s2, _, _) in reversed(trans):
                if w < 0.0001:
                    break
                q[s, a] += alpha * w * (r + gamma * max(q[s2, b] for b in acts) - q[s, a])
                w *= lam
            continue
        for (s, a, r), (s2, a2, _) in (trans[-1:] if online else trans):
            nxt = q[s2, a2] if kind == 'SARSA' else max(q[s2, b] for b in acts)
            q[s, a] += alpha * (r + gamma * nxt - q[s, a])


KIND = {'Q': Q, 'SARSA': SARSA, 'QLambda': QLambda}


def tab_of(ns, na):
    t = ActionValueTable(ns, na)
    q = {}
    for s in range(ns):
        for a in range(na):
            q[s, a] = [0.5, -0.25, 1.5, 0.75, -1.0, 0.125, 2.0, -0.5, 0.25][s * na + a]
            t.updateValue(s, a, q[s, a])
    return t, q


def tabular(ctx, kind, ns, na, n, first, mode, pars):
    for rest in itertools.product(range(ns * na), repeat=n - 1):
        sa = [divmod(c, na) for c in (first,) + rest]
        for part in partitions(n):
            for alpha, gamma, lam in pars:
                rw = [RW[(i + len(part)) % 5] for i in range(n)]
                eps = [[(sa[i][0], sa[i][1], rw[i]) for i in e] for e in part]
                key = '%s:%s:%s:%s' % (kind, mode, eps, (alpha, gamma, lam))
                t, q = tab_of(ns, na)
                ds = ReinforcementDataSet(1, 1)
                ln = KIND[kind](alpha, gamma, lam) if kind == 'QLambda' else KIND[kind](alpha, gamma)
                ln.module = t
                ln.dataset = ds
                if mode == 'batch':
                    for e in eps:
                        ds.newSequence()
                        for s, a, r in e:
                            ds.addSample([s], [a], [r])
                    before = snap([ds[f] for f in ('state', 'action', 'reward', 'sequence_index')])
                    for rep in range(2):
                        ok, _ = ctx.guard('learn:' + key, ln.learn)
                        ref_learn(kind, q, eps, alpha, gamma, lam)
                        ctx.trans()
                        if not ok or not cmp_table(ctx, key, t, q, ns, na):
                            break
                    ctx.check(snap([ds[f] for f in ('state', 'action', 'reward', 'sequence_index')]) == before, 'dataset:' + key, 'learning changed the history')
                else:
                    ln.batchMode = False
                    got = []
                    for e in eps:
                        ds.newSequence()
                        got.append([])
                        for s, a, r in e:
                            ds.addSample([s], [a], [r])
                            got[-1].append((s, a, r))
                            ok, _ = ctx.guard('learn:' + key, ln.learn)
                            ref_learn(kind, q, got if kind == 'QLambda' else got[-1:], alpha, gamma, lam, True)
                            ctx.trans()
                            if not ok:
                                break
                    cmp_table(ctx, key, t, q, ns, na)
                ctx.trace()
                ctx.state(key)
                ctx.outcome(snap(t.params))


def cmp_table(ctx, key, t, q, ns, na):
    got = [[float(t.getValue(s, a)) for a in range(na)] for s in range(ns)]
    want = [[q[s, a] for a in range(na)] for s in range(ns)]
    return ctx.check(close(got, want), 'values:' + key, 'action values after learning', got=got, want=want)


# ------------------------------------------------------------------------------------------ (2) greedy
def greedy(ctx, ns, na):
    menu = (-1.0, 0.0, 2.0)
    for vals in itertools.product(menu, repeat=ns * na):
        t = ActionValueTable(ns, na)
        for i, v in enumerate(vals):
            t.updateValue(i // na, i % na, v)
        ctx.check(t.numActions == na, 'numActions', 'number of actions')
        for s in range(ns):
            row = vals[s * na:(s + 1) * na]
            best = set(a for a in range(na) if row[a] == max(row))
            ctx.check(list(t.getActionValues(s)) == list(row) == list(t.getActionValues(array([float(s)]))), 'avalues:%s' % (vals,), 'action values of a state', got=t.getActionValues(s))
            ctx.check(all(t.getValue(s, a) == row[a] for a in range(na)), 'value:%s' % (vals,), 'single value')
            got = set()

            def body(ch):
                with rng.control(ch, unit=[0.0, 0.4, 0.6, 0.999]):
                    a1 = int(t.getMaxAction(s))
                    a2 = t.activate([s])
                got.add(a1)
                ctx.trans()
                ctx.check(a1 in best and len(a2) == 1 and a2[0] in best, 'greedy:%s:%d' % (vals, s), 'greedy action', got=(a1, a2), want=sorted(best))
            explore(body)
            ctx.check(got <= best and got, 'greedy-set:%s:%d' % (vals, s), 'greedy actions', got=got)
            ctx.state((vals, s))
        t.initialize(0.25)
        ctx.check(all(v == 0.25 for v in t.params), 'initialize', 'initialize fills the table')
        ctx.trace()
    ctx.sample(dict(table=(ns, na)))


def greedy_net(ctx, ds, na):
    net = ActionValueNetwork(ds, na)
    menu = (-1.0, 0.0, 0.5)
    for v in range(6):
        net.network.params[:] = [((7 * i + 3 * v) % 11 - 5) / 4. for i in range(len(net.network.params))]
        for st in itertools.product(menu, repeat=ds):
            vals = []
            for a in range(na):
                hot = [0.] * na
                hot[a] = 1.
                net.network.reset()
                vals.append(float(net.network.activate(list(st) + hot)[0]))
            got = ravel(net.getActionValues(array(st)))
            ctx.check(close(got, vals), 'netvalues:%d:%s' % (v, st), 'network action values', got=got, want=vals)
            ctx.check(all(close(net.getValue(array(st), a), [vals[a]]) for a in range(na)), 'netvalue:%d:%s' % (v, st), 'network action value')
            a = int(net.getMaxAction(array(st)))
            out = net.activate(st)
            ctx.check(vals[a] == max(vals) and vals[int(out[0])] == max(vals), 'netgreedy:%d:%s' % (v, st), 'greedy action of the network', got=(a, out), values=vals)
            ctx.trans()
            ctx.trace()
            ctx.state((v, st))
            ctx.outcome(tuple(vals))


# ------------------------------------------------------------------------------------------ (3) NFQ
def nfq(ctx, n, first):
    states = [array([0.25, -1.0]), array([1.0, 0.5])]
    for rest in itertools.product(range(4), repeat=n - 1):
        sa = [divmod(c, 2) for c in (first,) + rest]
        for part in partitions(n):
            key = 'nfq:%s:%s' % (sa, part)
            nt = sum(len(e) - 1 for e in part)
            if nt < 2:
                continue               # the trainer splits the samples into two parts
            m = ActionValueNetwork(2, 2)
            ref = ActionValueNetwork(2, 2)
            for x in (m, ref):
                x.network.params[:] = [((5 * i) % 9 - 4) / 5. for i in range(len(x.network.params))]
            ds = ReinforcementDataSet(2, 1)
            sup = SupervisedDataSet(4, 1)
            for e in part:
                ds.newSequence()
                for i in e:
                    ds.addSample(states[sa[i][0]], [sa[i][1]], [RW[i]])
                for i, j in zip(e, e[1:]):
                    s, a = states[sa[i][0]], sa[i][1]
                    hot = [0., 0.]
                    hot[a] = 1.
                    q = float(ref.network.activate(r_[s, hot])[0])
                    nxt = max(float(ref.network.activate(r_[states[sa[j][0]], h])[0]) for h in ([1., 0.], [0., 1.]))
                    sup.addSample(r_[s, hot], [q + 0.5 * (RW[i] + 0.9 * nxt - q)])
            ln = NFQ(maxEpochs=2)
            ln.module = m
            ln.dataset = ds
            rng.seed(7)
            ln.learn()
            rng.seed(7)
            RPropMinusTrainer(ref.network, dataset=sup, batchlearning=True, verbose=False).trainUntilConvergence(maxEpochs=2)
            ctx.trans()
            ctx.trace()
            ctx.state(key)
            ctx.check(close(m.network.params, ref.network.params, 1e-7), 'nfq-params:' + key, 'network after fitting the Q targets', got=m.network.params, want=ref.network.params)
            ctx.outcome(snap(m.network.params))


# ------------------------------------------------------------------------------------------ (4) linear FA
FEAT = [array([1.0, 0.0]), array([0.5, -1.0]), array([0.0, 0.0])]
TH0 = [[0.5, -0.25], [0.125, 0.75]]


class Tie(BaseException):
    pass


class RefFA(object):
    def __init__(self, kind, gamma, lam):
        self.kind, self.g, self.l = kind, gamma, lam
        self.th = array(TH0)
        self.e = zeros((2, 2))
        self.A = zeros((4, 4))
        self.b = zeros(4)
        self.w = zeros((2, 2))

    def pi(self, s, zero_matters=False):
        q = dot(self.th, s)
        if abs(q[0] - q[1]) < 1e-9 and (zero_matters or s.any()):
            raise Tie()
        return array([1., 0.]) if q[0] > q[1] else array([0., 1.])

    def newEpisode(self):
        self.e = zeros((2, 2))

    def update(self, lr, s, a, r, s2, a2, pb):
        g = self.g
        phi = zeros((2, 2))
        phi[a] = s
        q = dot(self.th[a], s)
        k = self.kind
        if k == 'Q_LinFA':
            self.th[a] += lr * (r + g * max(dot(self.th, s2)) - q) * s
        elif k == 'QLambda_LinFA':
            self.e = self.e * g * self.l + phi
            self.th = self.th + lr * (r + g * max(dot(self.th, s2)) - q) * self.e
        elif k == 'SARSALambda_LinFA':
            self.e = self.e * g * self.l + phi
            self.th = self.th + lr * (r + g * dot(self.th[a2], s2) - q) * self.e
        elif k == 'LSTDQLambda':
            self.e = self.e * g * self.l + phi
            self.A += outer(ravel(self.e), ravel(phi - g * outer(self.pi(s2), s2)))
            self.b += r * ravel(self.e)
            self.th = dot(pinv(self.A), self.b).reshape(2, 2)
        elif k == 'LSPI':
            n = zeros((2, 2))
            n[a2] = s2
            self.A += outer(ravel(phi), ravel(phi - g * n))
            self.b += r * ravel(phi)
            self.th = dot(pinv(self.A), self.b).reshape(2, 2)
        elif k == 'GQLambda':
            rho = self.pi(s, True)[a] / pb[a]
            self.e = self.e * g * self.l * rho + phi
            bar = outer(self.pi(s2), s2)
            d = r + g * (self.th * bar).sum() - q
            self.th = self.th + lr * (d * self.e - g * (1 - self.l) * (self.w * self.e).sum() * bar)
            self.w = self.w + lr * (d * self.e - (self.w * phi).sum() * phi)


def well_conditioned(A):
    """rank decisions of the pseudo-inverse must not depend on rounding"""
    from numpy.linalg import svd
    s = svd(A)[1]
    return not s[0] or all(x / s[0] < 1e-13 or x / s[0] > 1e-6 for x in s)


def linfa(ctx, kind, n, gamma, lam, s0):
    passes = getattr(L, kind).passNextAction

    def body(ch):
        ln = getattr(L, kind)(2, 2, randomInit=False, rewardDiscount=gamma)
        if hasattr(ln, '_lambda'):
            ln._lambda = lam
        if kind == 'LSPI':
            ln.lazyInversions = None
        ln._theta = array(TH0)
        ref = RefFA(kind, gamma, lam)
        s, a = s0, ch.pick(2)
        h = []
        for t in range(n):
            if t and ch.pick(2):
                lr0 = ln.learningRate
                ln.newEpisode()
                ref.newEpisode()
                ctx.check(0 < ln.learningRate < lr0, 'lr:%s' % kind, 'learning rate decays with the episodes', got=ln.learningRate, before=lr0)
                h.append('|')
            s2, a2, r = ch.pick(3), ch.pick(2), (RW[t], 0.0)[ch.pick(2)]
            h.append((s, a, r, s2, a2))
            key = '%s:%s:%s:%s' % (kind, gamma, lam, h)
            args = [FEAT[s].copy(), a, r, FEAT[s2].copy()] + ([a2] if passes else [])
            lr = ln.learningRate
            q = dot(ln._theta, FEAT[s])
            pb = exp(q - max(q))
            pb = pb / pb.sum()
            try:
                ref.update(lr, FEAT[s], a, r, FEAT[s2], a2, pb)
            except Tie:
                ctx.note('greedy tie, run cut')
                return
            if kind in ('LSTDQLambda', 'LSPI') and not well_conditioned(ref.A):
                ctx.note('ill-conditioned, run cut')
                return
            with rng.control(ch, unit=[0.5]):
                ln._updateWeights(*args)
            ctx.trans()
            ctx.check(close(args[0], FEAT[s]) and close(args[3], FEAT[s2]), 'args:' + key, 'arguments were modified')
            if not ctx.check(close(ln._theta, ref.th, 1e-7), 'theta:' + key, 'weights after the update', got=ln._theta, want=ref.th):
                return
            ctx.state(tuple(h))
            s, a = s2, a2
        ctx.trace()
        ctx.outcome(snap(ln._theta))
    explore(body)


def policies(ctx):
    """greedy and Boltzmann policies of the linear learners"""
    for th in itertools.product((-1.0, 0.0, 3.0), repeat=6):
        ln = L.Q_LinFA(3, 2, randomInit=False)
        ln._theta = array(th).reshape(3, 2)
        for f in FEAT:
            q = [float(th[2 * i] * f[0] + th[2 * i + 1] * f[1]) for i in range(3)]
            best = set(i for i in range(3) if abs(q[i] - max(q)) < 1e-12)

            def body(ch):
                with rng.control(ch, unit=[0.5]):
                    p = list(ln._greedyPolicy(f))
                ctx.check(sorted(p) == [0, 0, 1] and p.index(1) in best, 'lf-greedy:%s' % (th,), 'greedy policy', got=p, want=sorted(best))
                ctx.trans()
            explore(body)
            for tau in (0.5, 1.0, 4.0):
                z = [exp(max(-20., (x - max(q)) / tau)) for x in q]
                z = [x / sum(z) for x in z]
                ctx.check(close(ln._boltzmannPolicy(f, tau), z), 'lf-boltz:%s:%s' % (th, tau), 'Boltzmann policy', got=ln._boltzmannPolicy(f, tau), want=z)
        ctx.trace()
        ctx.state(th)


# ------------------------------------------------------------------------------------------ (5) linear agent
def agent(ctx, kind, n, batch):
    passes = getattr(L, kind).passNextAction

    def body(ch):
        ln = getattr(L, kind)(2, 2, randomInit=False, rewardDiscount=0.5)
        ln.batchMode = batch
        if kind == 'LSPI':
            ln.lazyInversions = None
        calls = []
        real = ln._updateWeights
        ln._updateWeights = lambda s, a, r, s2, *x: calls.append((tuple(s), int(a), float(r), tuple(s2)) + tuple(int(y) for y in x))
        ag = LinearFA_Agent(ln)
        stream = []
        eps = [[]]
        for t in range(n):
            if t and ch.pick(2):
                ag.newEpisode()
                eps.append([])
            s, r = ch.pick(2), (1.5, -0.25)[ch.pick(2)]
            ag.integrateObservation(FEAT[s])
            with rng.control(ch, unit=[0.01, 0.99]):
                a = ag.getAction()
            ctx.check(len(a) == 1 and a[0] in (0, 1), 'la-action:%s' % kind, 'a legal action', got=a)
            ag.giveReward(r)
            stream.append((tuple(FEAT[s]), int(a[0]), r))
            eps[-1].append(stream[-1])
            ctx.trans()
        want = []
        for p, q in zip(stream, stream[1:]):
            want.append(p + (q[0],) + ((q[1],) if passes else ()))
        key = '%s:%s:%s' % (kind, batch, eps)
        if batch:
            ctx.check(calls == [], 'la-batch:' + key, 'no update before learning in batch mode', got=calls)
            ag.learn()
        ctx.check(calls == want, 'la-updates:' + key, 'transitions given to the learner', got=calls, want=want)
        got = []
        for i in range(ag.history.getNumSequences()):
            s = ag.history.getSequence(i)
            got.append([(tuple(s[0][k]), int(s[1][k, 0]), float(s[2][k, 0])) for k in range(len(s[0]))])
        ctx.check([e for e in got if e] == eps, 'la-history:' + key, 'recorded history', got=got, want=eps)
        ctx.trace()
        ctx.state(key)
        ctx.outcome(tuple(calls))
    explore(body)


PARS = [(0.5, 0.99, 0.9), (0.25, 0.5, 0.5)]
FA = ['Q_LinFA', 'QLambda_LinFA', 'SARSALambda_LinFA', 'LSTDQLambda', 'LSPI', 'GQLambda']


def jobs(tier, seed):
    T = tier == 'thorough'
    out = []
    for kind in ('Q', 'SARSA', 'QLambda'):
        for mode in ('batch', 'online'):
            for f in range(4):
                out.append(('tab:%s:%s:2x2:4:%d' % (kind, mode, f), tabular, (kind, 2, 2, 4, f, mode, PARS)))
            if T:
                for f in range(4):
                    out.append(('tab:%s:%s:2x2:5:%d' % (kind, mode, f), tabular, (kind, 2, 2, 5, f, mode, PARS[1:])))
            for f in range(6) if T else (0, 4):
                out.append(('tab:%s:%s:3x2:3:%d' % (kind, mode, f), tabular, (kind, 3, 2, 3, f, mode, PARS + [(1.0, 0.0, 0.01)])))
    for ns, na in ((1, 1), (1, 4), (2, 2), (2, 3)) + (((3, 2), (1, 6)) if T else ()):
        out.append(('greedy:%dx%d' % (ns, na), greedy, (ns, na)))
    out.append(('greedynet:2:3', greedy_net, (2, 3)))
    for f in range(4):
        out.append(('nfq:%d' % f, nfq, (4 if T else 3, f)))
    for kind in FA:
        for g, l in ((0.5, 0.9), (0.99, 0.25)):
            for s0 in range(3):
                out.append(('linfa:%s:%s:%d' % (kind, g, s0), linfa, (kind, 3 if T else 2, g, l, s0)))
        for batch in (False, True):
            out.append(('agent:%s:%s' % (kind, batch), agent, (kind, 4 if T else 3, batch)))
    out.append(('policies', policies, ()))
    return out
