"""Model-based methods on the real code for every Markov decision process over a menu: all transition rows from a set of
deterministic and mixed distributions for every state and action, reward vectors, discount factors and policies
(2 states x 2 actions completely, 2x3 and 3x2 over a menu). Values and action values against an exact linear solve, the Bellman
equation, the collapsed matrices, greedy policies; policy iteration (plain, least-squares with full-rank and
rank-deficient features) against the best of all deterministic policies; arguments unchanged."""

import itertools
from numpy import array, zeros, eye, dot, asarray, ravel, outer
from numpy.linalg import solve
from mc import rng
from mc.choice import explore
from mc.canon import snap
from pybrain.rl.learners.modelbased import policyiteration as P
from pybrain.rl.learners.modelbased import leastsquares as LS

ASSUMPTIONS = ['trueValues sums int(10/(1-discount)) terms, so values are compared up to the tail bound exp(-10)*max|R|/(1-discount)',
               'feature maps are features x states (the orientation the code uses); square ones are full rank so either reading agrees']


def vref(T, R, g):
    return solve(eye(len(T)) - g * T, dot(T, R))


def qref(Ts, R, g, pol):
    V = vref(coll(Ts, pol), R, g)
    return array([[dot(Ts[a][s], R + g * V) for a in range(len(Ts))] for s in range(len(R))])


def coll(Ts, pol):
    n = len(Ts[0])
    return array([[sum(pol[s][a] * Ts[a][s][t] for a in range(len(Ts))) for t in range(n)] for s in range(n)])


def near(a, b, tol):
    a, b = asarray(a, float), asarray(b, float)
    return a.shape == b.shape and abs(a - b).max() <= tol


def tol(R, g):
    return 5e-5 * (max(abs(R)) + 1e-9) / (1 - g) + 1e-9


def det_policies(n, k):
    for acts in itertools.product(range(k), repeat=n):
        p = zeros((n, k))
        for s, a in enumerate(acts):
            p[s, a] = 1
        yield p


def rows(n, menu):
    base = [tuple(1. if i == j else 0. for i in range(n)) for j in range(n)]
    if menu == 'full':
        return base + [tuple(1. / n for _ in range(n)), tuple([0.125] + [0.875 / (n - 1)] * (n - 1))]
    if menu == 'mix':
        return base + [tuple([0.25] + [0.75 / (n - 1)] * (n - 1))]
    return base


def policies(n, k, full):
    menu = [tuple(1. if i == j else 0. for i in range(k)) for j in range(k)] + [tuple([0.25] + [0.75 / (k - 1)] * (k - 1))]
    if full:
        for p in itertools.product(menu, repeat=n):
            yield array(p)
    else:
        for i in range(len(menu) + 1):
            yield array([menu[(i + s * (1 + i // 2)) % len(menu)] for s in range(n)])


def mdps(ctx, n, k, menu, rewards, gammas, part, of, fullpol, integer=False):
    rs = rows(n, menu)
    for idx, combo in enumerate(itertools.product(range(len(rs)), repeat=n * k)):
        if idx % of != part:
            continue
        Ts = [array([rs[combo[a * n + s]] for s in range(n)]) for a in range(k)]
        if integer:
            Ts = [T.astype(int) for T in Ts]
        for R in rewards:
            R = array(R) if integer else array(R, float)
            for g in gammas:
                key = '%d:%d:%s:%s:%s' % (n, k, combo, list(R), g)
                before = snap([Ts, R])
                one(ctx, key, Ts, R, g, n, k, fullpol)
                ctx.check(snap([Ts, R]) == before, 'args:' + key, 'arguments were modified')
                ctx.state(key)
                ctx.trace()


def one(ctx, key, Ts, R, g, n, k, fullpol):
    e = tol(R, g)
    for p in policies(n, k, fullpol):
        p0 = p.copy()
        T = P.collapsedTransitions(Ts, p)
        ctx.trans()
        if not ctx.check(near(T, coll(Ts, p), 1e-12), 'collapsed:' + key, 'collapsed transitions', policy=p, got=T, want=coll(Ts, p)):
            continue
        V = P.trueValues(T, R, g)
        ctx.check(near(V, vref(T, R, g), e), 'values:' + key, 'state values', policy=p, got=V, want=vref(T, R, g))
        Q = P.trueQValues(Ts, R, g, p)
        ctx.check(near(Q, qref(Ts, R, g, p), e), 'qvalues:' + key, 'action values', policy=p, got=Q, want=qref(Ts, R, g, p))
        ctx.check(near((Q * p).sum(axis=1), V, e), 'agree:' + key, 'state values are the policy average of the action values', policy=p, got=(Q * p).sum(axis=1), want=V)
        # least squares with one feature per state is exact
        ctx.check(near(LS.LSTD_values(T, R, eye(n), g), vref(T, R, g), 1e-6 + e * 1e-3), 'lstd:' + key, 'least-squares values with identity features', policy=p,
                  got=LS.LSTD_values(T, R, eye(n), g), want=vref(T, R, g))
        gp = P.greedyQPolicy(Q)
        for s in range(n):
            best = [a for a in range(k) if Q[s, a] == max(Q[s])]
            ctx.check(near(gp[s], [1. / len(best) if a in best else 0. for a in range(k)], 1e-12), 'greedyq:' + key, 'greedy policy of action values', q=Q[s], got=gp[s])
        gp, gT = P.greedyPolicy(Ts, R, g, V)
        ctx.check(near(gT, coll(Ts, gp), 1e-12), 'greedyT:' + key, 'transitions of the greedy policy', got=gT, want=coll(Ts, gp))
        look = [[dot(Ts[a][s], R + g * V) for a in range(k)] for s in range(n)]
        for s in range(n):
            ctx.check(abs(sum(gp[s]) - 1) < 1e-12 and all(x == 0 or look[s][a] >= max(look[s]) - 1e-9 for a, x in enumerate(gp[s])),
                      'greedy:' + key, 'greedy policy picks only maximal actions', got=gp[s], lookahead=look[s])
        ctx.check(snap(p) == snap(p0), 'policy-arg:' + key, 'the policy argument was modified')
        ctx.outcome(snap(V))
    # random policy
    rp, rT = P.randomPolicy(Ts)
    ctx.check(near(rp, [[1. / k] * k] * n, 1e-12) and near(rT, coll(Ts, rp), 1e-12), 'random:' + key, 'uniform policy and its transitions', got=(rp, rT))
    # policy iteration
    best = None
    for p in det_policies(n, k):
        v = vref(coll(Ts, p), R, g)
        best = v if best is None else array([max(x, y) for x, y in zip(best, v)])
    inits = [None] + list(det_policies(n, k))[:2]
    for init in inits:
        runs = [('pi', P.policyIteration(Ts, R, g, initpolicy=init)),
                ('lspi', LS.LSPI_policy(eye(n), Ts, R, g, initpolicy=init)),
                ('lstdpi', LS.LSTD_PI_policy(eye(n), Ts, R, g, initpolicy=init))]
        for name, (pol, T) in runs:
            ctx.trans()
            ctx.check(near(pol.sum(axis=1), [1.] * n, 1e-9) and pol.min() >= 0, name + '-dist:' + key, 'a policy is a distribution per state', got=pol)
            ctx.check(near(T, coll(Ts, pol), 1e-3), name + '-T:' + key, 'returned transitions belong to the returned policy', got=T, want=coll(Ts, pol))
            v = vref(coll(Ts, pol), R, g)
            # an action whose value is over-estimated by e can cost 2e/(1-g)
            ctx.check(all(x >= y - 4 * e / (1 - g) - 1e-6 for x, y in zip(v, best)), name + ':' + key, 'no policy improves on the returned one', start=init, got=v, best=best, policy=pol)


def features(ctx, n, gammas):
    """least squares with general feature maps: exact for invertible ones, the documented fixed point otherwise"""
    sq = [array([[1., 0.5, 0.25], [0., 1., -1.], [2., 0., 1.]])[:n, :n], array([[0., 2., 1.], [1., 0., 0.5], [0., 0., -1.]])[:n, :n]]
    rect = [array([[1., 0.5, -0.25][:n]]), array([[1., 1., 1.][:n], [0., 1., 2.][:n]])][:n]
    rs = rows(n, 'mix')
    for combo in itertools.product(range(len(rs)), repeat=n):
        T = array([rs[c] for c in combo])
        for R in (array([1., -0.5, 2.][:n]), array([0., 1., 0.25][:n])):
            for g in gammas:
                key = 'feat:%s:%s:%s' % (combo, list(R), g)
                for f in sq:
                    for lim in (1e8, 0):
                        got = LS.LSTD_values(T, R, f, g, MAT_LIMIT=lim)
                        ctx.trans()
                        ctx.check(near(got, vref(T, R, g), 1e-6), 'square:%s:%s' % (lim, key), 'values with invertible features are exact', features=f, got=got, want=vref(T, R, g))
                for f in rect:
                    A = zeros((len(f), len(f)))
                    b = zeros(len(f))
                    for s in range(n):
                        for t in range(n):
                            A += T[s, t] * outer(f[:, s], f[:, s] - g * f[:, t])
                            b += T[s, t] * R[t] * f[:, s]
                    for lim in (1e8, 0):
                        m, r = LS.trueFeatureStats(T, R, f, g, MAT_LIMIT=lim)
                        ctx.trans()
                        ctx.check(near(m, A, 1e-9) and near(r, b, 1e-9), 'stats:%s:%s' % (lim, key), 'feature statistics', features=f, got=(m, r), want=(A, b))
                ctx.trace()
                ctx.state(key)
    # Q-values with invertible features
    for combo in itertools.product(range(len(rs)), repeat=n):
        Ts = [array([rs[c] for c in combo]), array([rs[(c + 1 + i) % len(rs)] for i, c in enumerate(combo)])]
        R = array([1., -0.5, 2.][:n])
        for g in gammas:
            for p in policies(n, 2, False):
                got = LS.LSTD_Qvalues(Ts, p, R, sq[0], g)
                ctx.trans()
                ctx.check(near(got, qref(Ts, R, g, p), 1e-6), 'lstdq:%s:%s' % (combo, g), 'least-squares action values with invertible features are exact', got=got, want=qref(Ts, R, g, p))
                ctx.outcome(snap(got))


def random_det(ctx, n, k):
    Ts = [array([[1. if (s + a) % n == t else 0. for t in range(n)] for s in range(n)]) for a in range(k)]
    seen = set()

    def body(ch):
        with rng.control(ch, unit=[(2 * i + 1.) / (2 * k) for i in range(k)]):
            p, T = P.randomDeterministic(Ts)
        seen.add(tuple(map(tuple, p)))
        ctx.trans()
        ctx.check(all(sorted(r) == [0.] * (k - 1) + [1.] for r in p) and near(T, coll(Ts, p), 1e-12), 'rdet:%d:%d' % (n, k), 'a deterministic policy and its transitions', got=(p, T))
    explore(body)
    ctx.check(len(seen) == k ** n, 'rdet-all:%d:%d' % (n, k), 'every deterministic policy can be drawn', got=len(seen))
    ctx.trace()


def jobs(tier, seed):
    T = tier == 'thorough'
    out = []
    R2 = [(1., 0.), (0., 1.), (-0.5, 2.), (1., 1.)]
    for part in range(8):
        out.append(('mdp:2x2:%d' % part, mdps, (2, 2, 'full' if T else 'mix', R2 if T else R2[:3], (0., 0.5, 0.9), part, 8, T)))
        out.append(('mdp:3x2:%d' % part, mdps, (3, 2, 'mix' if T else 'det', [(1., 0., -0.5)], (0.75,), part, 8, False)))
    for part in range(4):
        out.append(('mdp:2x3:%d' % part, mdps, (2, 3, 'mix' if T else 'det', R2[:2], (0.5, 0.95) if T else (0.5,), part, 4, False)))
    out.append(('mdp:int', mdps, (2, 2, 'det', [(1, 0), (0, 2), (-1, 1)], (0, 0.5), 0, 1, True, True)))
    out.append(('feat:2', features, (2, (0., 0.5, 0.9))))
    out.append(('feat:3', features, (3, (0.5, 0.9) if T else (0.5,))))
    for n, k in ((1, 2), (2, 2), (3, 2), (2, 3)):
        out.append(('randomdet:%d:%d' % (n, k), random_det, (n, k)))
    return out
