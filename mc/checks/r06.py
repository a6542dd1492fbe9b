"""Complete state graphs of the POMDP maze tasks on the real code: every hidden state (reached through real actions),
every action (index and 1-in-n array form), every outcome of every random draw (menus just below / above each decision
threshold), rewards, successors, observations, end of episode, accumulated reward and step limits compared with a table
written from the task definitions. T-maze for every length up to the bound, both goal sides, tiger, shuttle docking,
4x3 maze, cheese maze."""

from numpy import array
from mc.choice import explore
from mc import rng
from pybrain.rl.environments.mazes.tasks import TigerTask, ShuttleDocking, TMaze, FourByThreeMaze, CheeseMaze

EPS = 1e-7
DIR = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def around(*ths):
    out = [0.0]
    for t in ths:
        out += [t - EPS, t + EPS]
    return sorted(set(out)) + [0.9999999]


def onehot(o):
    return sorted(float(x) for x in o) == [0.0] * (len(o) - 1) + [1.0]


def as_vec(n, a):
    v = [0.0] * n
    v[a] = 1.0
    return array(v)


# ------------------------------------------------------------------------------------------ tiger
def tiger(ctx, depth, vec, maxsteps=None):
    us = around(0.15)
    seen_obs = set()
    starts = set()

    def body(ch):
        with rng.control(ch, unit=us) as c:
            t = TigerTask()
            if maxsteps is not None:
                t.maxSteps = maxsteps
            t.reset()
            left = bool(t.tigerLeft)
            starts.add(left)
            hist = []
            total = 0.0
            t_total = 0.0
            for d in range(depth):
                c.log[:] = []
                o = t.getObservation()
                us_drawn = [x for x in c.log if x[0] == 'u']
                good = (1, 0) if left else (0, 1)
                ob = tuple(int(x) for x in o)
                noisy = us_drawn and us_drawn[-1][1] < 0.15
                want = good if not noisy else (1 - good[0], 1 - good[1])
                ctx.check(ob == want, 'tiger:obs:%s:%s' % (left, noisy), 'observation', got=ob, want=want, draw=us_drawn, actions=hist)
                seen_obs.add((left, ob))
                a = c.index(3)
                hist.append(a)
                t.performAction(as_vec(3, a) if vec else a)
                ctx.trans()
                r = t.getReward()
                if a == 0:
                    w = -1
                else:
                    w = -100 if (a == 1) == left else 10
                ctx.check(r == w, 'tiger:reward:%s:%s' % (left, a), 'reward', got=r, want=w, actions=hist)
                total += 0.75 ** (d + 1) * w
                ctx.check(abs(t.getTotalReward() - total) < 1e-9, 'tiger:total:%s' % hist, 'discounted total', got=t.getTotalReward(), want=total)
                fin = a != 0 or (maxsteps is not None and d + 1 >= maxsteps)
                ctx.check(bool(t.isFinished()) == fin, 'tiger:finished:%s' % hist, 'end of episode', got=t.isFinished(), want=fin)
                ctx.check(bool(t.tigerLeft) == left, 'tiger:moved:%s' % hist, 'tiger moved during the episode')
                ctx.state(('tiger', left, tuple(hist), maxsteps))
                ctx.outcome((left, ob, a, r))
                if fin:
                    # a new episode starts clean
                    t.reset()
                    ctx.check(not t.isFinished() and t.getTotalReward() == 0, 'tiger:reset', 'reset starts a fresh episode', actions=hist)
                    break
            ctx.trace()
            ctx.sample(dict(task='tiger', left=left, actions=hist))
    explore(body)
    ctx.check(starts == {True, False}, 'tiger:starts', 'both start states reachable', got=sorted(starts))
    ctx.check(len(seen_obs) == 4, 'tiger:allobs', 'all observations occur', got=sorted(seen_obs))


# ------------------------------------------------------------------------------------------ shuttle
def shuttle_next(pos, d, a, u):
    """(pos, dir, bumped) of the documented docking process; u = the noise draw of a backup"""
    free = range(1, 6)

    def back():
        q = pos - (1 if d == 1 else -1)
        return (q if q in free else pos, d, False)
    if a == 2:
        return pos, (d + 2) % 4, False
    if a == 1:
        q = pos + (1 if d == 1 else -1)
        if q not in free or q in (1, 5):
            return pos, d, True
        return q, d, False
    if pos == 3:
        if u < 0.1:
            return pos, (d + 2) % 4, False
        return back() if u < 0.9 else (pos, d, False)
    if (pos == 2 and d == 3) or (pos == 4 and d == 1):
        if u < 0.3:
            return pos, (d + 2) % 4, False
        return back() if u < 0.6 else (pos, d, False)
    return back() if u < 0.7 else (pos, d, False)


def shuttle(ctx, depth, vec):
    """states are reached by real action histories; (pos, dir, bumped) graph explored to closure, each edge for all draws"""
    us = around(0.1, 0.3, 0.6, 0.7, 0.9)
    paths = {}
    order = []

    def play(c, hist):
        t = ShuttleDocking()
        t.reset()
        for a, u in hist:
            c.unit_src = [u]
            t.performAction(as_vec(3, a) if vec else a)
            t.getReward()
        return t

    def key(t):
        return (t.env.perseus[1], t.env.perseusDir, bool(t.env.bang))
    with rng.control(_zero()) as c0:
        t = play(c0, [])
        ctx.check(tuple(t.env.perseus) == (1, 1) and t.env.perseusDir == 1, 'shuttle:start', 'start state', got=(t.env.perseus, t.env.perseusDir))
    paths[(1, 1, False)] = []
    order.append((1, 1, False))
    i = 0
    while i < len(order):
        st = order[i]
        i += 1
        hist = paths[st]
        for a in range(3):
            for u in (us if a == 0 else [0.5]):
                with rng.control(_zero(), unit=[0.5]) as c:
                    t = play(c, hist)
                    ctx.check(key(t) == st, 'shuttle:path:%s' % (hist,), 'same history, different state', got=key(t), want=st)
                    before = t.getTotalReward()
                    n0 = len(hist)
                    c.unit_src = [u]
                    t.performAction(as_vec(3, a) if vec else a)
                    ctx.trans()
                    want = shuttle_next(st[0], st[1], a, u)
                    got = key(t)
                    ctx.check(got == want, 'shuttle:next:%s:%d:%.7f' % (st, a, u), 'successor (pos, dir, bumped)', got=got, want=want, history=hist)
                    goal = want[0] == 5
                    w = 10 if goal else (-3 if want[2] else 0)
                    r = t.getReward()
                    ctx.check(r == w, 'shuttle:reward:%s:%d:%.7f' % (st, a, u), 'reward', got=r, want=w, history=hist)
                    ctx.check(bool(t.isFinished()) == goal, 'shuttle:end:%s:%d:%.7f' % (st, a, u), 'end of episode', history=hist)
                    ctx.check(abs(t.getTotalReward() - before - 0.95 ** (n0 + 1) * w) < 1e-9, 'shuttle:total:%s:%d:%.7f' % (st, a, u),
                              'accumulated reward', got=t.getTotalReward() - before, want=0.95 ** (n0 + 1) * w, history=hist)
                    for uo in around(0.7):
                        c.unit_src = [uo]
                        o = t.getObservation()
                        ctx.trans()
                        p, d = want[0], want[1]
                        if p == 5:
                            wi = 4
                        elif p == 1:
                            wi = 0
                        else:
                            wi = 3 if d == 1 else 1
                        if p == 3 and uo > 0.7:
                            ctx.check(onehot(o) and o[wi] != 1, 'shuttle:obs:noise:%s' % (want,), 'noisy observation in space', got=list(o))
                        else:
                            ctx.check(len(o) == 5 and onehot(o) and o[wi] == 1, 'shuttle:obs:%s' % (want,), 'observation', got=list(o), want=wi)
                        ctx.outcome((want, tuple(o)))
                    ctx.state(('shuttle', got))
                    ctx.trace()
                    if got not in paths and not goal and len(hist) < depth:
                        paths[got] = hist + [(a, u)]
                        order.append(got)
                    ctx.sample(dict(task='shuttle', history=hist + [(a, u)], state=got))
    ctx.check(len(order) >= 8, 'shuttle:coverage', 'state graph collapsed', got=order)


class _zero(object):
    def pick(self, n):
        return 0


# ------------------------------------------------------------------------------------------ T-maze
def tmaze(ctx, L):
    def build(c, up):
        while True:
            t = TMaze(length=L)
            t.reset()
            return t

    def cell_free(p):
        return (p[0] == 2 and 1 <= p[1] <= L + 1) or (p[1] == L + 1 and p[0] in (1, 3))
    sides = set()

    def body(ch):
        with rng.control(ch, unit=(0.0, 0.999)) as c:
            t = TMaze(length=L)
            t.reset()
            goal = tuple(t.env.goal)
            sides.add(goal)
            ctx.check(goal in ((1, L + 1), (3, L + 1)), 'tmaze:goal:%d' % L, 'goal in one arm', got=goal)
            up = goal[0] == 3
            ctx.check(tuple(t.env.perseus) == (2, 1), 'tmaze:start:%d' % L, 'start cell', got=t.env.perseus)
            hint = list(t.getObservation())
            ctx.check(hint == ([1, 0, 0, 0] if up else [0, 1, 0, 0]), 'tmaze:hint:%d:%s' % (L, up), 'start observation names the goal side', got=hint)
            # walk to column k, then try every action there
            k = 1 + c.index(L + 1)
            for _ in range(k - 1):
                t.performAction(1)
                t.getReward()
            pos = (2, k)
            ctx.check(tuple(t.env.perseus) == pos, 'tmaze:walk:%d:%d' % (L, k), 'corridor walk', got=t.env.perseus, want=pos)
            total = t.getTotalReward()
            acts = []
            for _ in range(2):
                a = c.index(4)
                acts.append(a)
                nxt = (pos[0] + DIR[a][0], pos[1] + DIR[a][1])
                bang = not cell_free(nxt)
                if not bang:
                    pos = nxt
                t.performAction(a)
                ctx.trans()
                wrong = pos[1] == L + 1 and pos[0] == 4 - goal[0]
                w = 4 if pos == goal else (-0.1 if (bang or wrong) else 0)
                for rep in (1, 2):        # reading the reward is not an event
                    r = t.getReward()
                    ctx.check(r == w, 'tmaze:reward:%d:%s:%s:%s' % (L, goal, pos, rep), 'reward (reading no. %d)' % rep, got=r, want=w, column=k, actions=acts)
                fin = pos == goal or wrong
                ctx.check(bool(t.isFinished()) == fin, 'tmaze:end:%d:%s:%s' % (L, goal, pos), 'end of episode', want=fin, actions=acts, column=k)
                ctx.state(('tmaze', L, goal, pos, bang))
                ctx.outcome((L, w, fin))
                if fin:
                    break
                o = list(t.getObservation())
                want = hint if pos == (2, 1) else ([0, 0, 1, 0] if pos[1] == L + 1 else [0, 0, 0, 1])
                ctx.check(o == want, 'tmaze:obs:%d:%s' % (L, pos), 'observation', got=o, want=want)
            ctx.trace()
            ctx.sample(dict(task='tmaze', length=L, goal=goal, column=k, actions=acts))
    explore(body)
    ctx.check(len(sides) == 2, 'tmaze:sides:%d' % L, 'both goal sides occur', got=sorted(sides))


# ------------------------------------------------------------------------------------------ 4x3
def fourbythree(ctx, vec):
    free = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4)]
    inits = set()
    for start in free:
        if start in ((2, 4), (3, 4)):
            continue
        for a in range(4):
            results = {}

            def body(ch):
                with rng.control(ch, unit=[0.3 - EPS, 0.3 + EPS, 0.1 - EPS, 0.999]) as c:
                    t = FourByThreeMaze(initPos=[start])
                    t.reset()
                    c.log[:] = []
                    t.performAction(as_vec(4, a) if vec else a)
                    ctx.trans()
                    us = [x[1] for x in c.log if x[0] == 'u'][1 if vec else 0:]
                    p = tuple(t.env.perseus)
                    noisy = us and us[0] < 0.3
                    results.setdefault(bool(noisy), {}).setdefault(p, 0)
                    results[bool(noisy)][p] += 1
                    bad, goal = p == (2, 4), p == (3, 4)
                    w = -1 if bad else (1 if goal else -0.04)
                    r = t.getReward()
                    ctx.check(abs(r - w) < 1e-12, '4x3:reward:%s' % (p,), 'reward', got=r, want=w)
                    ctx.check(bool(t.isFinished()) == (bad or goal), '4x3:end:%s' % (p,), 'end of episode', got=t.isFinished())
                    o = [bool(x) for x in t.getObservation()]
                    wW, wE = (p[0], p[1] - 1) not in free, (p[0], p[1] + 1) not in free
                    ctx.check(o == [wW, wE, wW and wE, not wW and not wE], '4x3:obs:%s' % (p,), 'observation', got=o)
                    ctx.state(('4x3', p))
                    ctx.trace()
            explore(body)

            def move(x):
                q = (start[0] + DIR[x][0], start[1] + DIR[x][1])
                return q if q in free else start
            ctx.check(set(results.get(False, {})) == {move(a)}, '4x3:plain:%s:%d' % (start, a), 'move without noise', got=results, want=move(a))
            want = {}
            for x in range(4):
                if (x - a) % 4 != 2:
                    want[move(x)] = want.get(move(x), 0) + 1
            got = results.get(True, {})
            tot = sum(got.values())
            ctx.check(tot and {k: v * 3 for k, v in got.items()} == {k: v * tot for k, v in want.items()}, '4x3:noise:%s:%d' % (start, a),
                      'noisy moves go to the intended and the two perpendicular directions equally', got=got, want=want)
    # default starting positions

    def body2(ch):
        with rng.control(ch, unit=[0.9]):
            t = FourByThreeMaze()
            inits.add(tuple(t.env.perseus))
            ctx.trans()
            ctx.trace()
    explore(body2)
    ctx.check(inits == set(free) - {(2, 4), (3, 4)}, '4x3:starts', 'start cells', got=sorted(inits))
    ctx.sample(dict(task='4x3', starts=sorted(inits)))


# ------------------------------------------------------------------------------------------ cheese maze
def cheese(ctx, vec):
    free = [(3, c) for c in range(1, 6)] + [(r, c) for r in (1, 2) for c in (1, 3, 5)]
    goal = (1, 3)
    cls = {}
    for p in free:
        w = [(p[0] + d[0], p[1] + d[1]) not in free for d in DIR]
        if p == goal:
            cls[p] = 6
        elif sum(w) == 3:
            cls[p] = 0
        elif sum(w) == 1:
            cls[p] = 5
        elif w == [True, True, False, False]:
            cls[p] = 1
        elif w == [True, False, False, True]:
            cls[p] = 2
        elif w == [True, False, True, False]:
            cls[p] = 3
        elif w == [False, True, False, True]:
            cls[p] = 4
        else:
            raise AssertionError(p)
    starts = set()

    def body0(ch):
        with rng.control(ch):
            starts.add(tuple(CheeseMaze().env.perseus))
            ctx.trans()
    explore(body0)
    ctx.check(starts == set(free) - {goal}, 'cheese:starts', 'start cells', got=sorted(starts))
    for p in free:
        if p == goal:
            continue
        for a in range(4):
            for b in range(4):
                with rng.control(_zero()):
                    t = CheeseMaze(initPos=[p])
                    t.reset()
                pos = p
                tot = 0.0
                for n, x in enumerate((a, b)):
                    o = list(t.getObservation())
                    want = [0.0] * 7
                    want[cls[pos]] = 1.0
                    ctx.check(o == want, 'cheese:obs:%s' % (pos,), 'observation', got=o, want=want)
                    with rng.control(_zero(), unit=[0.5]):
                        t.performAction(as_vec(4, x) if vec else x)
                    ctx.trans()
                    q = (pos[0] + DIR[x][0], pos[1] + DIR[x][1])
                    pos = q if q in free else pos
                    ctx.check(tuple(t.env.perseus) == pos, 'cheese:move:%s:%d' % (p, x), 'move', got=t.env.perseus, want=pos)
                    w = 1 if pos == goal else 0
                    ctx.check(t.getReward() == w, 'cheese:reward:%s' % (pos,), 'reward', got=t.getReward(), want=w)
                    tot += 0.95 ** (n + 1) * w
                    ctx.check(abs(t.getTotalReward() - tot) < 1e-9, 'cheese:total:%s:%d%d' % (p, a, b), 'discounted total', got=t.getTotalReward(), want=tot)
                    ctx.check(bool(t.isFinished()) == (pos == goal), 'cheese:end:%s' % (pos,), 'end of episode')
                    ctx.state(('cheese', p, pos))
                    if pos == goal:
                        o = list(t.getObservation())
                        ctx.check(o == [0] * 6 + [1], 'cheese:goalobs', 'goal observation', got=o)
                        break
                ctx.trace()
    ctx.sample(dict(task='cheese', starts=sorted(starts)))


def limits(ctx):
    """step limits end an episode exactly at the limit, and reset restarts the count"""
    for cls, kw in ((TMaze, dict(length=6)), (CheeseMaze, dict(initPos=[(1, 1)])), (ShuttleDocking, {}), (TigerTask, {}), (FourByThreeMaze, dict(initPos=[(1, 1)]))):
        for m in range(1, 5):
            for rounds in (1, 2):
                with rng.control(_zero(), unit=[0.99]):
                    t = cls(maxSteps=m, **kw)
                    for _ in range(rounds):
                        t.reset()
                        n = 0
                        while not t.isFinished() and n < 10:
                            t.performAction(0 if cls is not FourByThreeMaze else 3)
                            ctx.trans()
                            n += 1
                        ctx.check(n == m, 'limit:%s:%d' % (cls.__name__, m), 'episode length under a step limit', got=n, want=m)
                        ctx.state((cls.__name__, m, rounds))
                ctx.trace()
    ctx.sample(dict(limits='1..4'))


class Replay(object):
    def __init__(self, picks):
        self.picks = list(picks)

    def pick(self, n):
        return self.picks.pop(0) % n if self.picks else 0


class Record(object):
    def __init__(self, ch):
        self.ch, self.picks = ch, []

    def pick(self, n):
        self.picks.append(self.ch.pick(n))
        return self.picks[-1]


def again(ctx, first, second):
    """an episode after a reset is the same as the first episode of a fresh task under the same draws, whatever happened before the reset"""
    us = [0.05, 0.25, 0.65, 0.95]
    for cls, kw, acts in ((TigerTask, {}, (0, 1, 2)), (ShuttleDocking, {}, (0, 1, 2)), (TMaze, dict(length=1), (0, 1, 3)), (FourByThreeMaze, dict(initPos=[(1, 3), (3, 3)]), (0, 1, 3)),
                          (CheeseMaze, dict(initPos=[(2, 3), (3, 1)]), (0, 2, 3))):
        for maxsteps in (None, 2):
            if maxsteps:
                kw = dict(kw, maxSteps=2)

            def episode(c, t, todo):
                out = [tuple(float(x) for x in t.getObservation())]
                for a in todo:
                    t.performAction(a)
                    out.append((float(t.getReward()), bool(t.isFinished()), round(float(t.getTotalReward()), 9), tuple(float(x) for x in t.getObservation())))
                return out

            def body(ch):
                before = [ch.of(acts) for _ in range(ch.pick(first + 1))]
                after = [ch.of(acts) for _ in range(second)]
                with rng.control(_zero(), unit=us[:1]) as c:
                    t = cls(**kw)
                    c.ch, c.unit_src = ch, us[:1] + us[-1:]
                    t.reset()
                    for a in before:
                        t.performAction(a)
                        t.getReward()
                    rec = Record(ch)
                    c.ch, c.unit_src = rec, us[:1] + us[-1:]
                    t.reset()
                    got = episode(c, t, after)
                with rng.control(_zero(), unit=us[:1]) as c:
                    f = cls(**kw)
                    c.ch, c.unit_src = Replay(rec.picks), us[:1] + us[-1:]
                    f.reset()
                    want = episode(c, f, after)
                ctx.trans(2)
                ctx.check(got == want, 'again:%s' % cls.__name__, 'an episode after a reset differs from that of a fresh task under the same draws', limit=maxsteps, before=before,
                          after=after, got=got, want=want)
                ctx.state((cls.__name__, maxsteps, tuple(before), tuple(want)))
                ctx.trace()
            explore(body)
    ctx.outcome('done')


def jobs(tier, seed):
    q = tier == 'quick'
    out = [('tiger', tiger, (3 if q else 4, False)), ('tiger-vec', tiger, (2 if q else 3, True)), ('tiger-max', tiger, (3, False, 2)),
           ('shuttle', shuttle, (12, False)), ('shuttle-vec', shuttle, (12, True)), ('4x3', fourbythree, (False,)), ('4x3-vec', fourbythree, (True,)),
           ('cheese', cheese, (False,)), ('cheese-vec', cheese, (True,)), ('limits', limits, ()), ('again', again, (1 if q else 2, 2))]
    for L in ([1, 2, 3, 5, 10] if q else range(1, 16)):
        out.append(('tmaze-%d' % L, tmaze, (L,)))
    return out
