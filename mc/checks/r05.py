"""All wall layouts of small mazes x every free cell (and heading) x every action on the real Maze / PolarMaze, with every
outcome of every random draw (slip on/off, each slip direction, each sensor flip), plus start cells, MazeTask rewards and
episode ends for every goal placement, MDP observation uniqueness on non-square mazes, and the shipped maze tasks
(T-maze, cheese, 4x3, 89-state). Oracle: a wall table lookup."""

import itertools
from numpy import array
from mc.choice import explore
from mc import rng
from mc.checks import r06
from pybrain.rl.environments.mazes import Maze, PolarMaze
from pybrain.rl.environments.mazes.tasks import MazeTask, MDPMazeTask, EightyNineStateMaze, TrivialMaze

DIR = [(1, 0), (0, 1), (-1, 0), (0, -1)]     # N E S W
LO, HI = 0.3 - 1e-7, 0.3 + 1e-7


def layouts(h, w):
    cells = [(i, j) for i in range(1, h + 1) for j in range(1, w + 1)]
    for bits in range(1, 2 ** len(cells)):
        free = [c for k, c in enumerate(cells) if bits >> k & 1]
        if len(free) < 2:
            continue
        t = [[1] * (w + 2) for _ in range(h + 2)]
        for i, j in free:
            t[i][j] = 0
        yield array(t), free


def polar_step(pos, d, act, free):
    bang = False
    if act == 1:
        q = (pos[0] + DIR[d][0], pos[1] + DIR[d][1])
        if q in free:
            pos = q
        else:
            bang = True
    elif act == 2:
        d = (d + 2) % 4
    elif act == 3:
        d = (d + 3) % 4        # left of north is west
    elif act == 4:
        d = (d + 1) % 4
    return pos, d, bang


def cart_step(pos, a, free):
    q = (pos[0] + DIR[a][0], pos[1] + DIR[a][1])
    return (q, False) if q in free else (pos, True)


def name(free):
    return ''.join('%d%d.' % p for p in free)


def check_sensors(ctx, m, free, polar, where):
    p = tuple(m.perseus)
    walls = [0.0 if (p[0] + d[0], p[1] + d[1]) in free else 1.0 for d in DIR]
    if polar:
        walls = [walls[(m.perseusDir + k) % 4] for k in range(4)]
    o = [float(x) for x in m.getSensors()]
    ctx.check(o == walls, 'sensors:%s' % where, 'observed walls', got=o, want=walls, at=p)
    ctx.outcome(tuple(o))


def det(ctx, h, w, polar):
    cls = PolarMaze if polar else Maze
    for topo, free in layouts(h, w):
        fs = set(free)
        goal = free[-1]
        for start in free:
            for d in (range(4) if polar else [0]):
                for a in range(5 if polar else 4):
                    with rng.control(_fixed([0, d])):
                        m = cls(topo.copy(), goal, initPos=[start])
                        if polar:
                            m.perseusDir = d
                        where = '%s:%s:%d:%d' % (name(free), start, d, a)
                        check_sensors(ctx, m, fs, polar, where)
                        m.performAction(a)
                        ctx.trans()
                        if polar:
                            want = polar_step(start, d, a, fs)
                            got = (tuple(m.perseus), m.perseusDir, bool(m.bang))
                        else:
                            want = cart_step(start, a, fs)
                            got = (tuple(m.perseus), bool(m.bang))
                        ctx.check(got == want, 'move:' + where, 'state after action', got=got, want=want)
                        check_sensors(ctx, m, fs, polar, where + ':after')
                        # a second step from where it is: nothing is remembered but the state
                        b = (a + 1) % (5 if polar else 4)
                        m.performAction(b)
                        if polar:
                            want2 = polar_step(want[0], want[1], b, fs)
                            got2 = (tuple(m.perseus), m.perseusDir, bool(m.bang))
                        else:
                            want2 = cart_step(want[0], b, fs)
                            got2 = (tuple(m.perseus), bool(m.bang))
                        ctx.check(got2 == want2, 'move2:' + where, 'state after second action', got=got2, want=want2)
                        ctx.check((m.mazeTable == topo).all(), 'walls:' + where, 'walls changed')
                        ctx.state((name(free), got, polar))
                        ctx.trace()
    ctx.sample(dict(layout=topo, start=start))


class _fixed(object):
    def __init__(self, seq):
        self.seq = list(seq)

    def pick(self, n):
        return (self.seq.pop(0) if self.seq else 0) % n


def slip(ctx, h, w, polar):
    cls = PolarMaze if polar else Maze
    na = 5 if polar else 4
    for topo, free in layouts(h, w):
        fs = set(free)
        for start in free:
            for d in ((0, 1) if polar else (0,)):
                for a in range(na):
                    res = {True: {}, False: {}}
                    where = '%s:%s:%d:%d' % (name(free), start, d, a)

                    def body(ch):
                        with rng.control(_fixed([0, d])):
                            m = cls(topo.copy(), free[0], initPos=[start], stochAction=0.3)
                            if polar:
                                m.perseusDir = d
                        with rng.control(ch, unit=[LO, HI]) as c:
                            m.performAction(a)
                        ctx.trans()
                        us = [x[1] for x in c.log if x[0] == 'u']
                        k = (tuple(m.perseus), m.perseusDir if polar else 0, bool(m.bang))
                        slipped = bool(us) and us[0] < 0.3
                        res[slipped][k] = res[slipped].get(k, 0) + 1
                        ctx.trace()
                        ctx.state((name(free), k))
                    explore(body)
                    outs = []
                    for x in range(na):
                        if polar:
                            outs.append(polar_step(start, d, x, fs))
                        else:
                            p, b = cart_step(start, x, fs)
                            outs.append((p, 0, b))
                    ctx.check(set(res[False]) == {outs[a]}, 'slip-no:' + where, 'without slipping the chosen action is executed', got=res[False], want=outs[a])
                    want = {}
                    for o in outs:
                        want[o] = want.get(o, 0) + 1
                    ctx.check(res[True] == want, 'slip:' + where, 'a slip executes every action equally likely', got=res[True], want=want)
    ctx.sample(dict(layout=topo, start=start, outcomes=[list(map(repr, res[True]))]))


def noisy_sensors(ctx, polar):
    cls = PolarMaze if polar else Maze
    for topo, free in layouts(2, 2):
        fs = set(free)
        for start in free:
            seen = set()

            def body(ch):
                with rng.control(_fixed([0, 1])):
                    m = cls(topo.copy(), free[0], initPos=[start], stochObs=0.3)
                d = m.perseusDir if polar else 0
                with rng.control(ch, unit=[LO, HI]) as c:
                    o = [int(x) for x in m.getSensors()]
                ctx.trans()
                walls = [0 if (start[0] + q[0], start[1] + q[1]) in fs else 1 for q in DIR]
                walls = [walls[(d + k) % 4] for k in range(4)]
                flips = sum(1 for x, y in zip(o, walls) if x != y)
                low = sum(1 for x in c.log if x[0] == 'u' and x[1] < 0.3)
                ctx.check(flips == low, 'flip:%s:%s:%s' % (name(free), start, o), 'number of flipped sensors = number of draws below the noise level', got=flips, want=low)
                seen.add(tuple(o))
                ctx.trace()
                ctx.state((name(free), start, tuple(o)))
            explore(body)
            ctx.check(len(seen) == 16, 'flip-all:%s:%s' % (name(free), start), 'every sensor can flip independently', got=len(seen))
    ctx.sample(dict(start=start, patterns=len(seen)))


def starts(ctx, h, w):
    for polar in (False, True):
        cls = PolarMaze if polar else Maze
        for topo, free in layouts(h, w):
            for goal in free:
                seen = set()
                again = set()

                def body(ch):
                    with rng.control(ch):
                        m = cls(topo.copy(), goal)
                        seen.add((tuple(m.perseus), m.perseusDir if polar else 0))
                    ctx.trans()
                    ctx.trace()
                    ctx.check(not m.bang, 'bang0:%s' % name(free), 'fresh maze reports a bump')
                    with rng.control(_fixed([0, 0])):
                        m.performAction(1)
                        m.performAction(0)
                        m.performAction(2)
                        m.reset()
                    p = tuple(m.perseus)
                    ctx.check(p in set(free) - {goal} and not m.bang, 'reset:%s:%s' % (name(free), goal), 'reset state', got=p)
                explore(body)
                want = {(p, d) for p in free if p != goal for d in (range(4) if polar else [0])}
                ctx.check(seen == want, 'starts:%s:%s' % (name(free), goal), 'initial states', got=sorted(seen), want=sorted(want))
                ctx.state((name(free), goal, polar))
    ctx.sample(dict(layout=topo, goal=goal, starts=sorted(seen)))


def task(ctx, h, w, polar, lo):
    """MazeTask over every layout, goal and start: reward, end, bump penalty, discounted total along 2-action histories"""
    kws = dict(bangPenalty=-3, defaultPenalty=-0.5, finalReward=7)
    na = 5 if polar else 4
    for n, (topo, free) in enumerate(layouts(h, w)):
        if n % 2 != lo:
            continue
        fs = set(free)
        for goal in free:
            for start in free:
                if start == goal:
                    continue
                for acts in itertools.product(range(na), repeat=2):
                    with rng.control(_fixed([0, 0] * 4)):
                        t = MazeTask(topology=topo.copy(), goal=goal, initPos=[start], mazeclass=PolarMaze if polar else Maze, **kws)
                        t.reset()
                    pos, d = start, t.env.perseusDir if polar else 0
                    tot = 0
                    where = '%s:%s:%s:%s' % (name(free), goal, start, acts)
                    ctx.check(not t.isFinished(), 'task-start:' + where, 'finished at the start')
                    for a in acts:
                        t.performAction(a)
                        ctx.trans()
                        if polar:
                            pos, d, bang = polar_step(pos, d, a, fs)
                        else:
                            pos, bang = cart_step(pos, a, fs)
                        r = t.getReward()
                        wr = 7 if pos == goal else (-3 if bang else -0.5)
                        ctx.check(r == wr, 'task-reward:' + where, 'reward', got=r, want=wr)
                        tot += wr
                        ctx.check(t.getTotalReward() == tot, 'task-total:' + where, 'total', got=t.getTotalReward(), want=tot)
                        ctx.check(bool(t.isFinished()) == (pos == goal), 'task-end:' + where, 'end of episode', got=t.isFinished())
                        ctx.check(t.minReward <= wr, 'task-min:' + where, 'reward below its declared lower bound', got=wr, bound=t.minReward)
                        ctx.outcome((wr, pos == goal))
                        ctx.state((name(free), goal, pos, d))
                        if pos == goal:
                            break
                    ctx.trace()
    ctx.sample(dict(layout=topo, goal=goal, start=start, actions=acts))


def mdp(ctx, h, w):
    for topo, free in layouts(h, w):
        fs = set(free)
        goal = free[0]
        obs = {}
        for start in free:
            if start == goal:
                continue
            for a in range(4):
                with rng.control(_fixed([0] * 9)):
                    env = Maze(topo.copy(), goal, initPos=[start])
                    t = MDPMazeTask(env)
                    o = t.getObservation()
                    ctx.check(len(o) == 1, 'mdp-dim', 'observation dimension')
                    obs.setdefault(int(o[0]), set()).add(start)
                    t.performAction(array([float(a)]))
                    ctx.trans()
                    pos, _ = cart_step(start, a, fs)
                    ctx.check(tuple(env.perseus) == pos, 'mdp-move:%s:%s:%d' % (name(free), start, a), 'move', got=env.perseus, want=pos)
                    ctx.check(int(t.getObservation()[0]) not in obs or obs[int(t.getObservation()[0])] == {pos}, 'mdp-obs:%s:%s:%d' % (name(free), start, a),
                              'one observation for two cells', got=pos, others=sorted(obs.get(int(t.getObservation()[0]), [])))
                    obs.setdefault(int(t.getObservation()[0]), set()).add(pos)
                    r = t.getReward()
                    ctx.check(r == (1 if pos == goal else 0), 'mdp-reward:%s:%s:%d' % (name(free), start, a), 'reward', got=r)
                    ctx.check(tuple(env.perseus) == (start if pos == goal else pos), 'mdp-restart:%s:%s:%d' % (name(free), start, a), 'restarts after the goal', got=env.perseus)
                    ctx.state((name(free), start, pos))
                    ctx.trace()
        for o, ps in obs.items():
            ctx.check(len(ps) == 1, 'mdp-unique:%s:%d' % (name(free), o), 'one observation for several cells', got=sorted(ps))
            ctx.check(0 <= o < topo.size, 'mdp-range:%s:%d' % (name(free), o), 'state index in range', got=o)
        ctx.check(len(obs) == len({p for ps in obs.values() for p in ps}), 'mdp-fn:%s' % name(free), 'observation is a function of the cell')
    ctx.sample(dict(layout=topo, observations={k: sorted(v) for k, v in obs.items()}))


def shipped(ctx):
    """89-state maze: every cell x heading x action without slip; trivial maze walk"""
    topo = EightyNineStateMaze.topology
    free = {(i, j) for i in range(topo.shape[0]) for j in range(topo.shape[1]) if not topo[i, j]}
    n = 0
    for p in sorted(free):
        for d in range(4):
            for a in range(5):
                with rng.control(_fixed([0] * 9), unit=[0.5]):
                    t = EightyNineStateMaze()
                    t.env.perseus, t.env.perseusDir = p, d
                    t.performAction(a)
                    ctx.trans()
                    want = polar_step(p, d, a, free)
                    got = (tuple(t.env.perseus), t.env.perseusDir, bool(t.env.bang))
                    ctx.check(got == want, '89:%s:%d:%d' % (p, d, a), '89-state successor', got=got, want=want)
                    ctx.check(bool(t.isFinished()) == (want[0] == (2, 7)) and t.getReward() == (1 if want[0] == (2, 7) else 0), '89-end:%s:%d:%d' % (p, d, a), 'reward / end')
                    ctx.state(('89', got))
                    ctx.trace()
    with rng.control(_fixed([0] * 9)):
        t = TrivialMaze()
        t.reset()
        tot = 0
        for k, (a, w) in enumerate([(3, 0), (0, 0), (1, 0), (2, 0), (1, 1)]):
            t.performAction(a)
            ctx.trans()
            tot += 0.8 ** (k + 1) * w
            ctx.check(t.getReward() == w and abs(t.getTotalReward() - tot) < 1e-9, 'trivial:%d' % k, 'trivial maze', got=(t.getReward(), t.getTotalReward()), want=(w, tot))
        ctx.check(t.isFinished(), 'trivial:end', 'goal ends the episode')
    ctx.trace()
    ctx.sample(dict(cells=len(free)))


def jobs(tier, seed):
    q = tier == 'quick'
    out = [('shipped', shipped, ()), ('noise', noisy_sensors, (False,)), ('noise-polar', noisy_sensors, (True,)),
           ('starts', starts, (2, 2)), ('slip', slip, (2, 2, False)), ('slip-polar', slip, (2, 2, True))]
    for h, w in ((2, 2), (2, 3), (3, 2)) + (() if q else ((3, 3), (2, 4))):
        out.append(('det-%dx%d' % (h, w), det, (h, w, False)))
        out.append(('det-polar-%dx%d' % (h, w), det, (h, w, True)))
        if h * w < 9:
            out.append(('mdp-%dx%d' % (h, w), mdp, (h, w)))
    if not q:
        out.append(('slip-3x2', slip, (3, 2, False)))
        out.append(('starts-3x2', starts, (3, 2)))
    for lo in (0, 1):
        out.append(('task-%d' % lo, task, (2, 2, False, lo)))
        out.append(('task-polar-%d' % lo, task, (2, 2, True, lo)))
        if not q:
            out.append(('task-2x3-%d' % lo, task, (2, 3, False, lo)))
            out.append(('task-polar-2x3-%d' % lo, task, (2, 3, True, lo)))
    out += [j for j in r06.jobs(tier, seed) if j[0].startswith(('4x3', 'cheese', 'tmaze'))]
    return out
