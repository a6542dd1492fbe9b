"""Agents and experiments on the real code against a protocol automaton and a list of lists. (1) Every history of
{observe, act, reward, new episode with logging on, new episode with logging off, reset, learning off/on} up to the depth
on a logging and a learning agent with one- and many-dimensional observations and actions, all calls out of order
included. (2) Every history of experiment operations {n interactions, n episodes, interact-and-learn, learn, reset,
queue runs} with every assignment of episode lengths, on a recording task, recording learner and stateful module:
the recorded history, the returned rewards, the actions received by the environment, learning calls and resets are
compared with the reference after every operation."""

from numpy import array
from mc.choice import explore
from mc.history import bfs
from mc.canon import snap
from pybrain.rl.agents.logging import LoggingAgent
from pybrain.rl.agents import LearningAgent, OptimizationAgent
from pybrain.rl.environments.episodic import EpisodicTask
from pybrain.rl.environments.environment import Environment
from pybrain.rl.environments.task import Task
from pybrain.rl.experiments import EpisodicExperiment, ContinuousExperiment
from pybrain.rl.experiments.queued import QueuedExperiment
from pybrain.rl.learners.learner import ExploringLearner, DataSetLearner
from pybrain.structure.modules.module import Module
from pybrain.optimization import HillClimber
from pybrain.tools.shortcuts import buildNetwork

ASSUMPTIONS = ['logging is switched only together with the start of an episode (what a half-logged episode is grouped with is not defined)',
               'starting an episode while the current one is still empty may be refused or ignored']


class Counter(Module):
    """stateful module: output depends on the input and on the number of activations since the last reset"""
    n = 0

    def _forwardImplementation(self, inbuf, outbuf):
        for j in range(self.outdim):
            outbuf[j] = 100. * (self.n + 1) + 10. * j + inbuf.sum()
        self.n += 1

    def reset(self):
        Module.reset(self)
        self.n = 0


class Recorder(ExploringLearner, DataSetLearner):
    """learner that records what it is told and explores by adding 1000"""

    def __init__(self):
        self.calls = []
        self.seen = []

    def explore(self, state, action):
        self.seen.append((snap(state), snap(action)))
        return action + 1000.

    def learn(self):
        self.calls.append(('learn', hist(self.dataset)))

    def newEpisode(self):
        self.calls.append(('ep',))

    def reset(self):
        self.calls.append(('reset',))


def hist(ds):
    out = []
    for i in range(ds.getNumSequences()):
        s = ds.getSequence(i)
        out.append([tuple(tuple(float(v) for v in field[k]) for field in s) for k in range(len(s[0]))])
    return out


def norm(eps):
    """a trailing empty episode is only an open one"""
    return [e for e in eps if e]


class RawAgent(LoggingAgent):
    script = None

    def getAction(self):
        LoggingAgent.getAction(self)
        self.lastaction = self.script
        return self.lastaction


# ------------------------------------------------------------------------------------------ (1) protocol
OPS = ['obs', 'act', 'rew', 'ep', 'ep-off', 'reset', 'learning']


def protocol(ctx, kind, indim, outdim, depth, first):
    def replay(h):
        if kind == 'logging':
            ag = RawAgent(indim, outdim)
            learner = None
        else:
            learner = Recorder()
            ag = LearningAgent(Counter(indim, outdim), learner if kind == 'learning' else None)
        key = '%s:%d:%d:%s' % (kind, indim, outdim, '.'.join(OPS[o] for o in h))
        phase = 0              # 0 nothing / rewarded / fresh, 1 observed, 2 acted
        eps = [[]]
        logging = True
        learning = kind == 'learning'
        acts = 0               # activations since the module was reset
        obs = act = None
        for t, o in enumerate(h):
            op = OPS[o]
            last = t == len(h) - 1
            if op == 'obs':
                obs = array([t + 1. + 0.125 * j for j in range(indim)])
                ag.integrateObservation(obs)
                phase = 1
            elif op == 'act':
                if kind == 'logging':
                    ag.script = array([50. + t + 0.0625 * j for j in range(outdim)])
                    want = ag.script
                else:
                    want = None if obs is None else array([100. * (acts + 1) + 10. * j + obs.sum() + (1000. if learning else 0.) for j in range(outdim)])
                n0 = len(learner.seen) if learner else 0
                try:
                    got = ag.getAction()
                    refused = False
                except Exception:
                    refused = True
                if phase != 1:
                    if last:
                        ctx.check(refused, 'act-order:' + key, 'acting without a new observation must be refused')
                    return None
                if refused:
                    ctx.fail('act-refused:' + key, 'acting after an observation was refused')
                    return None
                if last:
                    ctx.check(snap(got) == snap(want), 'action:' + key, 'issued action', got=got, want=want)
                    if learner:
                        if learning:
                            ctx.check(learner.seen[n0:] == [(snap(obs), snap(want - 1000.))], 'explore:' + key, 'exploration gets observation and greedy action once', got=learner.seen[n0:])
                        else:
                            ctx.check(len(learner.seen) == n0, 'explore-off:' + key, 'no exploration while learning is off')
                act = array(got)
                acts += 1
                phase = 2
            elif op == 'rew':
                r = 0.5 + t
                before = hist(ag.history)
                try:
                    ag.giveReward(r)
                    refused = False
                except Exception:
                    refused = True
                if phase != 2:
                    if last:
                        ctx.check(refused, 'reward-order:' + key, 'rewarding without an action must be refused')
                        ctx.check(hist(ag.history) == before, 'reward-order-hist:' + key, 'a refused reward is not recorded')
                    return None
                if refused:
                    ctx.fail('reward-refused:' + key, 'rewarding after an action was refused')
                    return None
                if logging:
                    eps[-1].append((tuple(map(float, obs)), tuple(map(float, act)), (r,)))
                phase = 0
                obs = None
            elif op in ('ep', 'ep-off'):
                if phase != 0:
                    return None            # an episode starts between interactions
                ag.logging = logging = op == 'ep'
                try:
                    ag.newEpisode()
                except Exception:
                    if not (logging and not eps[-1]):
                        ctx.fail('episode-refused:' + key, 'starting an episode was refused', episodes=eps)
                        return None
                if logging and eps[-1]:
                    eps.append([])
                acts = 0
            elif op == 'reset':
                ag.reset()
                eps = [[]]
                phase = 0
                acts = 0
                obs = None
            elif op == 'learning':
                if kind != 'learning' or phase == 2:
                    return None
                learning = not learning
                ag.learning = learning
        got = norm(hist(ag.history))
        ctx.check(got == norm(eps), 'history:' + key, 'recorded history', got=got, want=norm(eps))
        ctx.check(len(ag.history) == sum(len(e) for e in eps), 'length:' + key, 'number of recorded interactions', got=len(ag.history))
        if kind != 'logging':
            ctx.check(bool(ag.learning) == learning, 'flag:' + key, 'learning flag', got=ag.learning, want=learning)
            # the state-sensitive module shows the number of activations since its last reset
            ctx.check(ag.module.n == acts, 'module-reset:' + key, 'module state since the last episode start', got=ag.module.n, want=acts)
        ctx.trace()
        ctx.outcome(snap(got))
        return (kind, indim, outdim, phase, tuple(len(e) for e in eps), logging, learning, acts, h[-1] if phase else None)
    d = bfs(ctx, len(OPS), depth, replay, first=first, prune=True)
    ctx.note('depth %s' % kind, d)


# ------------------------------------------------------------------------------------------ (2) experiments
class Env(Environment):
    def __init__(self, indim, outdim):
        self.indim, self.outdim = outdim, indim     # environment: indim = action values
        self.t = 0
        self.resets = 0
        self.received = []
        self.shown = []

    def getSensors(self):
        self.t += 1
        o = array([self.t + 0.25 * j for j in range(self.outdim)])
        self.shown.append(tuple(map(float, o)))
        return o

    def performAction(self, a):
        self.received.append(tuple(map(float, a)))

    def reset(self):
        self.resets += 1


class EpTask(EpisodicTask):
    def __init__(self, env, lengths):
        EpisodicTask.__init__(self, env)
        self.lengths = lengths         # callable: length of the next episode
        self.left = lengths()
        self.rewards = []

    def reset(self):
        EpisodicTask.reset(self)
        self.left = self.lengths()

    def performAction(self, a):
        EpisodicTask.performAction(self, a)
        self.left -= 1

    def addReward(self):
        self.now = -0.5 * (len(self.rewards) + 1)
        EpisodicTask.addReward(self)

    def getReward(self):
        if not self.rewards or self.rewards[-1] != self.now:
            self.rewards.append(self.now)
        return self.now

    def isFinished(self):
        return self.left <= 0


class ContTask(Task):
    n = 0

    def getReward(self):
        self.n += 1
        return -0.5 * self.n


def triples(env, shown0, rewards):
    return list(zip(env.shown[shown0:], env.received[shown0:], [(r,) for r in rewards]))


EOPS = ['ep1', 'ep2', 'ep0', 'learn', 'learn2', 'reset', 'queue1', 'queue2']


def episodic(ctx, depth, lens, indim, outdim, first):
    def body(ch):
        used = []

        def lengths():
            n = ch.of(lens)
            used.append(n)
            return n
        env = Env(indim, outdim)
        task = EpTask(env, lengths)
        learner = Recorder()
        ag = LearningAgent(Counter(indim, outdim), learner)
        x = QueuedExperiment(task, ag)
        plain = EpisodicExperiment(task, ag)
        eps = []
        nr = [0]
        ops = []

        def run_eps(n, us):
            """reference of n episodes with the lengths us"""
            out = []
            for i in range(n):
                L = us[i]
                e = [-0.5 * (nr[0] + k + 1) for k in range(L)]
                nr[0] += L
                out.append(e)
            return out

        for d in range(depth):
            o = EOPS[first] if d == 0 and first is not None else EOPS[ch.pick(len(EOPS))]
            ops.append(o)
            key = '%s:%s' % ('.'.join(ops), ''.join(map(str, used)))
            u0, c0, s0, res0, sh0 = len(used), len(learner.calls), len(env.shown), env.resets, len(env.shown)
            if o.startswith('ep'):
                n = int(o[2:])
                got = plain.doEpisodes(n)
                want = run_eps(n, used[u0:])
                ctx.check([list(map(float, e)) for e in got] == want, 'rewards:' + key, 'reward lists per episode', got=got, want=want)
                ctx.check(env.resets - res0 == n, 'resets:' + key, 'environment reset once per episode', got=env.resets - res0)
                ctx.check(plain.stepid == (len(want[-1]) if want else plain.stepid), 'stepid:' + key, 'steps of the last episode', got=plain.stepid)
                ctx.check(learner.calls[c0:] == [('ep',)] * n, 'calls:' + key, 'learner told of each episode', got=learner.calls[c0:])
                allr = [r for e in want for r in e]
                tr = triples(env, s0, allr)
                for e in want:
                    eps.append(tr[:len(e)])
                    tr = tr[len(e):]
            elif o.startswith('learn'):
                n = int(o[5:] or 1)
                ag.learn(n)
                got = [(c[0], norm(c[1])) for c in learner.calls[c0:]]
                ctx.check(got == [('learn', eps)] * n, 'learn:' + key, 'learner sees the whole history, %d times' % n, got=got, want=eps)
            elif o == 'reset':
                ag.reset()
                eps = []
            else:
                q = int(o[5:])
                cycles = 2
                x.run(q, cycles)
                want = run_eps(q + cycles, used[u0:])
                tr = triples(env, s0, [r for e in want for r in e])
                allep = []
                for e in want:
                    allep.append(tr[:len(e)])
                    tr = tr[len(e):]
                eps = allep[-q:]
                learns = [norm(c[1]) for c in learner.calls[c0:] if c[0] == 'learn']
                ctx.check(learns == [allep[i:i + q] for i in range(cycles)], 'queue-learn:' + key, 'each learning step sees exactly the latest episodes', got=learns)
            # actions issued: module state restarts with every episode; exploration added
            ctx.check(len(env.received) == len(env.shown), 'paired:' + key, 'one action per observation')
            got = norm(hist(ag.history))
            ctx.check(got == eps, 'history:' + key, 'recorded history', got=got, want=eps)
            for e in eps:
                for k, (ob, ac, _) in enumerate(e):
                    w = tuple(100. * (k + 1) + 10. * j + sum(ob) + 1000. for j in range(outdim))
                    ctx.check(all(abs(p - q_) < 1e-9 for p, q_ in zip(w, ac)), 'issued:' + key, 'the environment received what the agent issued', got=ac, want=w)
            ctx.trans()
            ctx.state((tuple(ops), tuple(used)))
        ctx.trace()
        ctx.outcome((tuple(ops), tuple(len(e) for e in eps)))
        ctx.sample(dict(ops=ops, lengths=used))
    explore(body)


COPS = ['step1', 'step2', 'step0', 'learn1', 'learn2', 'newep', 'reset', 'toggle']


def continuous(ctx, depth, indim, outdim, first):
    def body(ch):
        env = Env(indim, outdim)
        task = ContTask(env)
        learner = Recorder()
        ag = LearningAgent(Counter(indim, outdim), learner)
        x = ContinuousExperiment(task, ag)
        eps = [[]]
        steps = acts = 0
        learning = True
        ops = []
        for d in range(depth):
            o = COPS[first] if d == 0 and first is not None else COPS[ch.pick(len(COPS))]
            ops.append(o)
            key = '.'.join(ops)
            c0, s0 = len(learner.calls), len(env.shown)
            if o[:4] == 'step' or o[:5] == 'learn':
                n = int(o[-1])
                got = x.doInteractions(n) if o[:4] == 'step' else x.doInteractionsAndLearn(n)
                want_l = []
                for i in range(n):
                    steps += 1
                    acts += 1
                    ob = tuple(steps + 0.25 * j for j in range(indim))
                    ac = tuple(100. * acts + 10. * j + sum(ob) + (1000. if learning else 0.) for j in range(outdim))
                    eps[-1].append((ob, ac, (-0.5 * steps,)))
                    if o[:5] == 'learn' and learning:
                        want_l.append(('learn', [list(e) for e in norm(eps)]))
                ctx.check(got == steps == x.stepid, 'steps:' + key, 'number of interactions done', got=got, want=steps)
                got_l = [(c[0], norm(c[1])) for c in learner.calls[c0:]]
                ctx.check(got_l == want_l, 'learn:' + key, 'one learning step per interaction, seeing everything so far', got=got_l, want=want_l)
                ctx.check(env.received[s0:] == [t[1] for t in (e for ep in eps for e in ep)][-n:] if n and eps[-1] else True, 'received:' + key,
                          'the environment received the issued actions', got=env.received[s0:])
            elif o == 'newep':
                if eps[-1] == [] and len(eps) > 1:
                    ch.horizon = 0
                    ch.pick(1)
                ag.newEpisode()
                if eps[-1]:
                    eps.append([])
                acts = 0
            elif o == 'reset':
                ag.reset()
                eps = [[]]
                acts = 0
            else:
                learning = not learning
                ag.learning = learning
            got = norm(hist(ag.history))
            ctx.check(got == norm(eps), 'history:' + key, 'recorded history', got=got, want=norm(eps))
            ctx.check(len(env.received) == steps, 'count:' + key, 'actions received', got=len(env.received), want=steps)
            ctx.trans()
            ctx.state((tuple(ops),))
        ctx.trace()
        ctx.outcome(tuple(ops))
    explore(body)


def optim(ctx, depth, lens):
    """an optimisation agent evaluates exactly the requested number of episodes; single steps are refused"""
    def body(ch):
        env = Env(1, 1)
        task = EpTask(env, lambda: lens[0])
        net = buildNetwork(1, 1, bias=False)
        opt = HillClimber()
        x = EpisodicExperiment(task, OptimizationAgent(net, opt))
        done = 0
        ops = []
        for d in range(depth):
            n = ch.of((1, 2, 3))
            ops.append(n)
            r0, t0 = env.resets, len(env.received)
            x.doEpisodes(n)
            done += n
            key = '.'.join(map(str, ops))
            ctx.check(env.resets - r0 == n, 'opt-episodes:' + key, 'episodes run', got=env.resets - r0, want=n)
            ctx.check(len(env.received) - t0 == n * lens[0], 'opt-steps:' + key, 'steps run', got=len(env.received) - t0)
            try:
                x.doInteractions(1)
                refused = False
            except Exception:
                refused = True
            ctx.check(refused and len(env.received) - t0 == n * lens[0], 'opt-single:' + key, 'single interactions of an optimisation agent are refused')
            ctx.trans()
            ctx.state(tuple(ops))
        ctx.trace()
        ctx.outcome(tuple(ops))
    explore(body)


def jobs(tier, seed):
    T = tier == 'thorough'
    out = []
    for kind in ('logging', 'learning', 'nolearner'):
        for dims in ((1, 1), (2, 1), (3, 2)):
            if kind == 'nolearner' and dims != (2, 1) and not T:
                continue
            out.append(('protocol:%s:%d:%d' % ((kind,) + dims), protocol, (kind, dims[0], dims[1], 16 if T else 11, None)))
    for f in range(len(EOPS)):
        out.append(('episodic:%s' % EOPS[f], episodic, (3 if T else 2, (1, 2, 3) if T else (1, 2), 2, 1, f)))
        if T:
            out.append(('episodic4:%s' % EOPS[f], episodic, (4, (1,), 1, 2, f)))
        else:
            out.append(('episodic3:%s' % EOPS[f], episodic, (3, (2,), 1, 2, f)))
    for f in range(len(COPS)):
        out.append(('continuous:%s' % COPS[f], continuous, (6 if T else 4, 2, 1, f)))
    out.append(('optimization', optim, (4 if T else 3, (2,))))
    return out
